From ca3f34ac4cddc1c591a7dedce8ce01b13cc08312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 01/21] fix: apply ^, #_ and #= to the next form, not to a
 newline or comment

'^' or '#_' at the end of a line produced a node wrapping the newline,
which made the printer panic, and '#_' before a comment discarded the
comment rather than the form after it.
---
 parse/parse.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index 58e8e57..09729bb 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -436,7 +436,7 @@ func (t *Tree) parseMetadata(start token) *MetadataNode {
 		t.unexpectedEOF(tok)
 	}
 	t.backup()
-	return &MetadataNode{Pos: start.pos, Node: t.parseNext()}
+	return &MetadataNode{Pos: start.pos, Node: t.parseNextSemantic()}
 }
 
 func (t *Tree) parseReaderDiscard(start token) *ReaderDiscardNode {
@@ -445,7 +445,7 @@ func (t *Tree) parseReaderDiscard(start token) *ReaderDiscardNode {
 		t.unexpectedEOF(tok)
 	}
 	t.backup()
-	return &ReaderDiscardNode{Pos: start.pos, Node: t.parseNext()}
+	return &ReaderDiscardNode{Pos: start.pos, Node: t.parseNextSemantic()}
 }
 
 func (t *Tree) parseReaderEval(start token) *ReaderEvalNode {
@@ -454,7 +454,7 @@ func (t *Tree) parseReaderEval(start token) *ReaderEvalNode {
 		t.unexpectedEOF(tok)
 	}
 	t.backup()
-	return &ReaderEvalNode{Pos: start.pos, Node: t.parseNext()}
+	return &ReaderEvalNode{Pos: start.pos, Node: t.parseNextSemantic()}
 }
 
 func (t *Tree) parseRegex(start token) *RegexNode {
-- 
2.43.0


From 3c66eef181ed34c0423569b4c98ba7524e4945da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:00 +0000
Subject: [PATCH 02/21] fix: do not turn an unquoted deref into an
 unquote-splice

'~ @x' was parsed as '~@x', and an unquoted deref was printed as '~@x'.
---
 format/format.go | 3 +++
 parse/parse.go   | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/format/format.go b/format/format.go
index 64b2c35..a40ae2e 100644
--- a/format/format.go
+++ b/format/format.go
@@ -196,6 +196,9 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 		return w + p.writeString("#"+node.Val)
 	case *parse.UnquoteNode:
 		w += p.writeByte('~')
+		if _, ok := node.Node.(*parse.DerefNode); ok {
+			w += p.writeByte(' ') // ~@ would be an unquote-splice
+		}
 		return p.printNode(node.Node, w)
 	case *parse.UnquoteSpliceNode:
 		w += p.writeString("~@")
diff --git a/parse/parse.go b/parse/parse.go
index 09729bb..914ea9c 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -189,7 +189,11 @@ func (t *Tree) parseNext() Node {
 			next := t.next()
 			switch next.typ {
 			case tokAtSign:
-				return &UnquoteSpliceNode{Pos: tok.pos, Node: t.parseNextSemantic()}
+				// Only an @ directly after the ~ is a splice:
+				// "~ @foo" unquotes @foo.
+				if next.pos.Offset == tok.pos.Offset+1 {
+					return &UnquoteSpliceNode{Pos: tok.pos, Node: t.parseNextSemantic()}
+				}
 			case tokEOF:
 				t.unexpectedEOF(next)
 			}
-- 
2.43.0


From 98010a4ea2d2b1a1cba4e675945307697e0f2a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:01 +0000
Subject: [PATCH 03/21] fix: keep tags such as '# _foo' from being printed as
 dispatch macros

'# _foo bar' was printed as '#_foo bar', which discards foo.
---
 format/format.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/format.go b/format/format.go
index a40ae2e..fe75e8c 100644
--- a/format/format.go
+++ b/format/format.go
@@ -193,6 +193,10 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 		w += p.writeByte('`')
 		return p.printNode(node.Node, w)
 	case *parse.TagNode:
+		if strings.IndexAny(node.Val, "_=?!<") == 0 {
+			// Without the space this would be a dispatch macro.
+			return w + p.writeString("# "+node.Val)
+		}
 		return w + p.writeString("#"+node.Val)
 	case *parse.UnquoteNode:
 		w += p.writeByte('~')
-- 
2.43.0


From 60b8c346c05e756bfc323d1cf5b2b59a0bbad3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:08 +0000
Subject: [PATCH 04/21] fix: never print code on the line of a comment that
 ended without a newline

---
 format/format.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/format/format.go b/format/format.go
index fe75e8c..0af779b 100644
--- a/format/format.go
+++ b/format/format.go
@@ -631,6 +631,12 @@ func (p *Printer) printSequence(nodes []parse.Node, w int, style IndentStyle) in
 		// If we had a newline during a paired element, extraIndent
 		// indicates this so that we can remove the indent afterward.
 		extraIndent = false
+
+		// afterComment says that the previous node was a comment, which
+		// must be followed by a newline.
+		afterComment = false
+
+		nested = w > 0 // the opening delimiter precedes a nested sequence
 	)
 	if pairStartIdx > 0 {
 		pairIdx = -1
@@ -663,8 +669,18 @@ func (p *Printer) printSequence(nodes []parse.Node, w int, style IndentStyle) in
 			p.writeByte('\n')
 			needIndent = true
 			needSpace = false
+			afterComment = false
 			continue
 		}
+		if afterComment {
+			// The comment was ended by something other than a newline
+			// (such as a carriage return).
+			w2 = w
+			p.writeByte('\n')
+			needIndent = true
+			needSpace = false
+		}
+		afterComment = goclj.Comment(n)
 
 		semantic := goclj.Semantic(n)
 
@@ -714,6 +730,11 @@ func (p *Printer) printSequence(nodes []parse.Node, w int, style IndentStyle) in
 			pairIdx = 0
 		}
 	}
+	if afterComment && nested {
+		w2 = w
+		p.writeByte('\n')
+		needIndent = true
+	}
 	// We need to put in a trailing indent here; the next token cannot be a
 	// newline (it will need to be the closing delimiter for this sequence).
 	if needIndent {
-- 
2.43.0


From d361d1c4c967854dd9a820aa6cc3d6e8d12e940a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:22 +0000
Subject: [PATCH 05/21] fix: decode \backspace and octal characters as Clojure
 does, and reject signs

---
 parse/parse.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index 914ea9c..636cc6e 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -250,20 +250,20 @@ func (t *Tree) parseCharLiteral(tok token) *CharacterNode {
 		case "formfeed":
 			r = '\f'
 		case "backspace":
-			r = 0x7f
+			r = '\b'
 		case "return":
 			r = '\r'
 		default:
 			switch runes[0] {
 			case 'o':
-				n, err := strconv.ParseInt(val[1:], 8, 32)
-				if len(val) != 4 || err != nil || n < 0 {
+				n, err := strconv.ParseUint(val[1:], 8, 32)
+				if len(val) > 4 || err != nil || n > 0377 {
 					t.errorf(tok.pos, "invalid octal literal")
 				}
 				r = rune(n)
 			case 'u':
-				n, err := strconv.ParseInt(val[1:], 16, 32)
-				if len(val) != 5 || err != nil || n < 0 {
+				n, err := strconv.ParseUint(val[1:], 16, 32)
+				if len(val) != 5 || err != nil {
 					t.errorf(tok.pos, "invalid unicode literal")
 				}
 				r = rune(n)
-- 
2.43.0


From fd88d7ed433c74238cffedcdd43f5921e7a3d8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:35 +0000
Subject: [PATCH 06/21] fix: position of reader conditionals and tags, and of
 errors at EOF after #

---
 parse/lex.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/parse/lex.go b/parse/lex.go
index 85ad163..87fd008 100644
--- a/parse/lex.go
+++ b/parse/lex.go
@@ -419,7 +419,7 @@ func lexDispatch(l *lexer) stateFn {
 	r, eof := l.next()
 	if eof {
 		l.emit(tokOctothorpe)
-		return nil
+		return l.eof()
 	}
 	val := string(l.val)
 	switch r {
@@ -432,15 +432,13 @@ func lexDispatch(l *lexer) stateFn {
 		// Check whether we have #?(...) or #?@(...).
 		r, eof = l.next()
 		if eof {
-			l.synth(tokDispatch, val)
-			return nil
+			l.emit(tokDispatch)
+			return l.eof()
 		}
 		if r != '@' {
 			l.back()
 		}
-		val = string(l.val)
-		l.skip()
-		l.synth(tokDispatch, val)
+		l.emit(tokDispatch)
 		return lexOuter
 	case ':':
 		l.synth(tokDispatch, val)
@@ -460,7 +458,6 @@ func lexDispatch(l *lexer) stateFn {
 		l.errorf("unreadable dispatch macro")
 	default:
 		l.back()
-		l.skip()
 		l.emit(tokOctothorpe)
 	}
 	return lexOuter
-- 
2.43.0


From 17e8bf08181fb3f1f75d71ea6bd92ef4a4ec2ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:01 +0000
Subject: [PATCH 07/21] fix: don't treat a string as a docstring because of a
 trailing comment

---
 format/docstring.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/format/docstring.go b/format/docstring.go
index 4a0db83..49fe422 100644
--- a/format/docstring.go
+++ b/format/docstring.go
@@ -30,7 +30,12 @@ func (p *Printer) markDocstrings(n parse.Node) {
 		//   (def s "this is not a docstring")
 		//   (def s "this is a docstring" "x")
 		//
+		// Comments and discarded forms don't count.
 		if docstring != nil {
+			switch node.(type) {
+			case *parse.CommentNode, *parse.ReaderDiscardNode:
+				continue
+			}
 			p.docstrings[docstring] = struct{}{}
 			return
 		}
-- 
2.43.0


From 171f0fbfd6db39eb385f3a32c5ba374f6a3b081f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:02 +0000
Subject: [PATCH 08/21] fix: keep an escaped space at the end of a docstring
 line

---
 format/docstring.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/format/docstring.go b/format/docstring.go
index 49fe422..d2a1741 100644
--- a/format/docstring.go
+++ b/format/docstring.go
@@ -2,6 +2,8 @@ package format
 
 import (
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/cespare/goclj"
 	"github.com/cespare/goclj/parse"
@@ -59,7 +61,7 @@ func (p *Printer) alignDocstring(docstring string, w int) string {
 		if n > w {
 			prefix += strings.Repeat(" ", n-w)
 		}
-		line = strings.TrimSpace(line)
+		line = trimSpace(line)
 		if line != "" {
 			line = prefix + line
 		}
@@ -67,3 +69,17 @@ func (p *Printer) alignDocstring(docstring string, w int) string {
 	}
 	return strings.Join(aligned, "\n")
 }
+
+// trimSpace is like strings.TrimSpace except that it keeps a trailing space
+// which is escaped with a backslash. (The backslash would otherwise escape
+// whatever follows; for instance, the closing quote.)
+func trimSpace(s string) string {
+	s = strings.TrimLeftFunc(s, unicode.IsSpace)
+	t := strings.TrimRightFunc(s, unicode.IsSpace)
+	backslashes := len(t) - len(strings.TrimRight(t, `\`))
+	if backslashes%2 == 1 && len(t) < len(s) {
+		_, n := utf8.DecodeRuneInString(s[len(t):])
+		t = s[:len(t)+n]
+	}
+	return t
+}
-- 
2.43.0


From 03cd72cf07543d5d5d88ea0c52bafc05c8ab5074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:10 +0000
Subject: [PATCH 09/21] fix: keep metadata, tags and comments with their entry
 when sorting ns clauses

---
 format/transform.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/format/transform.go b/format/transform.go
index 2e29b3b..3341720 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -361,6 +361,7 @@ func sortImportRequire(n *parse.ListNode) {
 		nodes             = n.Children()
 		sorted            = make(importRequireList, 0, len(nodes)/2)
 		lineComments      []*parse.CommentNode
+		prefix            []parse.Node
 		initialNewline    = false
 		afterSemanticNode = false
 	)
@@ -369,6 +370,7 @@ func sortImportRequire(n *parse.ListNode) {
 		case *parse.CommentNode:
 			if afterSemanticNode {
 				sorted[len(sorted)-1].commentBeside = node
+				afterSemanticNode = false
 			} else {
 				lineComments = append(lineComments, node)
 			}
@@ -377,13 +379,19 @@ func sortImportRequire(n *parse.ListNode) {
 				initialNewline = true
 			}
 			afterSemanticNode = false
+		case *parse.MetadataNode, *parse.TagNode:
+			// These apply to the next node, so they move with it.
+			prefix = append(prefix, node)
+			afterSemanticNode = false
 		default:
 			ir := &importRequire{
 				commentsAbove: lineComments,
+				prefix:        prefix,
 				node:          node,
 			}
 			sorted = append(sorted, ir)
 			lineComments = nil
+			prefix = nil
 			afterSemanticNode = true
 		}
 	}
@@ -396,6 +404,7 @@ func sortImportRequire(n *parse.ListNode) {
 		for _, cn := range ir.commentsAbove {
 			newNodes = append(newNodes, cn, newline)
 		}
+		newNodes = append(newNodes, ir.prefix...)
 		newNodes = append(newNodes, ir.node)
 		if ir.commentBeside != nil {
 			newNodes = append(newNodes, ir.commentBeside)
@@ -406,6 +415,10 @@ func sortImportRequire(n *parse.ListNode) {
 	for _, cn := range lineComments {
 		newNodes = append(newNodes, cn, newline)
 	}
+	// metadata or tags without a following node
+	for _, pn := range prefix {
+		newNodes = append(newNodes, pn, newline)
+	}
 	// drop trailing newline
 	if len(newNodes) >= 2 && !goclj.Comment(newNodes[len(newNodes)-2]) {
 		newNodes = newNodes[:len(newNodes)-1]
@@ -569,6 +582,7 @@ func enforceConsistentIfNewlines(nodes []parse.Node) []parse.Node {
 type importRequire struct {
 	commentsAbove []*parse.CommentNode
 	commentBeside *parse.CommentNode
+	prefix        []parse.Node // metadata and tags in front of node
 	node          parse.Node
 }
 
-- 
2.43.0


From f83c9ab0fba5ee441cc69368be4a859cfe4747a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 10/21] fix: render rewritten requires in a deterministic order

---
 format/require.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/format/require.go b/format/require.go
index 9a58714..0ac8c97 100644
--- a/format/require.go
+++ b/format/require.go
@@ -262,7 +262,12 @@ func (rl *requireList) render() []parse.Node {
 		nodes = append(nodes, &parse.KeywordNode{Val: ":require"})
 	}
 	nodes = append(nodes, newline)
-	for _, r := range rl.m {
+	names := make(map[string]struct{})
+	for name := range rl.m {
+		names[name] = struct{}{}
+	}
+	for _, name := range sortStringSet(names) {
+		r := rl.m[name]
 		for _, c := range r.comments.commentsAbove {
 			nodes = append(nodes, c, newline)
 		}
-- 
2.43.0


From a63b35e0164832189f247c27351c5089a0b02d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 11/21] fix: keep referred macros of a namespace that is also
 used

---
 format/require.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/format/require.go b/format/require.go
index 0ac8c97..4df6a95 100644
--- a/format/require.go
+++ b/format/require.go
@@ -295,13 +295,11 @@ func (rl *requireList) render() []parse.Node {
 			parts = append(parts,
 				&parse.KeywordNode{Val: ":refer"},
 				&parse.KeywordNode{Val: ":all"})
-		} else {
-			if n := r.refer.render(); n != nil {
-				parts = append(parts, &parse.KeywordNode{Val: ":refer"}, n)
-			}
-			if n := r.referMacros.render(); n != nil {
-				parts = append(parts, &parse.KeywordNode{Val: ":refer-macros"}, n)
-			}
+		} else if n := r.refer.render(); n != nil {
+			parts = append(parts, &parse.KeywordNode{Val: ":refer"}, n)
+		}
+		if n := r.referMacros.render(); n != nil {
+			parts = append(parts, &parse.KeywordNode{Val: ":refer-macros"}, n)
 		}
 		nodes = append(nodes, &parse.VectorNode{Nodes: parts})
 		if r.comments.commentBeside != nil {
-- 
2.43.0


From 9aaba3d197500349b78acc8d0b291d4366ec1791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:32 +0000
Subject: [PATCH 12/21] fix: don't remove a referred / that is used

---
 format/unused.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/unused.go b/format/unused.go
index 7e0512d..e0c3c91 100644
--- a/format/unused.go
+++ b/format/unused.go
@@ -44,7 +44,7 @@ func findSymbols(roots []parse.Node) *symbolCache {
 			}
 		}
 		if name != "" {
-			if i := strings.IndexRune(name, '/'); i < 0 {
+			if i := strings.IndexRune(name, '/'); i < 0 || name == "/" {
 				syms.symbols[name] = struct{}{}
 			} else {
 				syms.namespaces[name[:i]] = struct{}{}
-- 
2.43.0


From 2a7ab46b3d6d67c5ad3e947f2ce27589c3f63ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:32 +0000
Subject: [PATCH 13/21] fix: report a failure to write the result to standard
 output

---
 cljfmt/cljfmt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cljfmt/cljfmt.go b/cljfmt/cljfmt.go
index 5035238..f5948b0 100644
--- a/cljfmt/cljfmt.go
+++ b/cljfmt/cljfmt.go
@@ -224,7 +224,9 @@ func (c *config) processFile(filename string, in io.Reader) error {
 		}
 	}
 	if !c.list && !c.write {
-		io.Copy(os.Stdout, &buf2)
+		if _, err := io.Copy(os.Stdout, &buf2); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 17727fb6b0145e2ecf239b5a189d6edb17ae75bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:11 +0000
Subject: [PATCH 14/21] fix: keep metadata and tags with their entry when
 rewriting requires

---
 format/require.go   | 19 +++++++++++++++++--
 format/transform.go | 11 ++++++++++-
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/format/require.go b/format/require.go
index 4df6a95..77d6aab 100644
--- a/format/require.go
+++ b/format/require.go
@@ -171,6 +171,7 @@ func (nc *nodeComments) attachCommentBeside(c *parse.CommentNode) {
 }
 
 type nodeWithComments struct {
+	prefix   []parse.Node // metadata and tags in front of n
 	n        parse.Node
 	comments nodeComments
 }
@@ -217,6 +218,7 @@ func (rl *requireList) parseRequireUse(nodes []parse.Node, use bool) {
 		extra             = &rl.extraRequire
 		prevComments      *nodeComments
 		lineComments      []*parse.CommentNode
+		prefix            []parse.Node
 		afterSemanticNode = false
 	)
 	if use {
@@ -237,20 +239,31 @@ func (rl *requireList) parseRequireUse(nodes []parse.Node, use bool) {
 			}
 		case *parse.NewlineNode:
 			afterSemanticNode = false
+		case *parse.MetadataNode, *parse.TagNode:
+			prefix = append(prefix, node)
+			afterSemanticNode = false
 		default:
-			if r := parseFn(node); r != nil {
+			var r *require
+			if len(prefix) == 0 {
+				r = parseFn(node)
+			}
+			if r != nil {
 				r2 := rl.merge(r)
 				prevComments = &r2.comments
 			} else {
-				nc := &nodeWithComments{n: node}
+				nc := &nodeWithComments{prefix: prefix, n: node}
 				*extra = append(*extra, nc)
 				prevComments = &nc.comments
+				prefix = nil
 			}
 			prevComments.attachCommentsAbove(lineComments)
 			afterSemanticNode = true
 			lineComments = nil
 		}
 	}
+	for _, node := range prefix { // not followed by anything
+		*extra = append(*extra, &nodeWithComments{n: node})
+	}
 	rl.commentsBelow = append(rl.commentsBelow, lineComments...)
 }
 
@@ -311,6 +324,7 @@ func (rl *requireList) render() []parse.Node {
 		for _, c := range r.comments.commentsAbove {
 			nodes = append(nodes, c, newline)
 		}
+		nodes = append(nodes, r.prefix...)
 		nodes = append(nodes, r.n)
 		if r.comments.commentBeside != nil {
 			nodes = append(nodes, r.comments.commentBeside)
@@ -333,6 +347,7 @@ func (rl *requireList) render() []parse.Node {
 			for _, c := range n.comments.commentsAbove {
 				extra = append(extra, c, newline)
 			}
+			extra = append(extra, n.prefix...)
 			extra = append(extra, n.n)
 			if n.comments.commentBeside != nil {
 				extra = append(extra, n.comments.commentBeside)
diff --git a/format/transform.go b/format/transform.go
index 3341720..7700e66 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -212,12 +212,21 @@ func removeUnusedRequires(ns parse.Node, syms *symbolCache) {
 		// because they may be needed for their side-effects.
 		var keep []parse.Node
 		var requires []parse.Node
+		prefixed := false // whether the previous child is metadata or a tag
 		for i, child := range n.Children() {
 			if i == 0 {
 				requires = append(requires, child)
 				continue
 			}
-			if vec, ok := child.(*parse.VectorNode); ok && len(vec.Children()) == 1 {
+			afterPrefix := prefixed
+			switch child.(type) {
+			case *parse.MetadataNode, *parse.TagNode:
+				prefixed = true
+			case *parse.CommentNode, *parse.NewlineNode:
+			default:
+				prefixed = false
+			}
+			if vec, ok := child.(*parse.VectorNode); ok && len(vec.Children()) == 1 && !afterPrefix {
 				keep = append(keep, child)
 			} else {
 				requires = append(requires, child)
-- 
2.43.0


From e0f7ba004dad88cab3fbe1eb6123ce552a8e50ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:03 +0000
Subject: [PATCH 15/21] fix: position of a namespaced map is that of its #:

---
 parse/parse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parse/parse.go b/parse/parse.go
index 636cc6e..b8e6d8b 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -430,6 +430,7 @@ func (t *Tree) parseNamespacedMap(start token) *MapNode {
 		t.errorf(tok.pos, "namespaced map must have a map")
 	}
 	m := t.parseMap(tok)
+	m.Pos = start.pos
 	m.Namespace = ns
 	return m
 }
-- 
2.43.0


From a44ae1adca65ea6ae17dce621b4fa60bbf99f687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:16 +0000
Subject: [PATCH 16/21] fix: indent a paired element by two after any number of
 blank lines

---
 format/format.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/format/format.go b/format/format.go
index 0af779b..2b3f9a5 100644
--- a/format/format.go
+++ b/format/format.go
@@ -659,8 +659,10 @@ func (p *Printer) printSequence(nodes []parse.Node, w int, style IndentStyle) in
 				IndentCond2,
 				IndentCond4:
 				if pairIdx > 0 {
-					w += 2
-					extraIndent = true
+					if !extraIndent { // not after a blank line
+						w += 2
+						extraIndent = true
+					}
 				} else if i == 1 && semanticIdx == 1 {
 					w++
 				}
-- 
2.43.0


From 770eb3926b239c9450dedb973685aea9ca136677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 17/21] fix: indent only the binding vector of letfn as
 function bodies

---
 format/format.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/format.go b/format/format.go
index 2b3f9a5..dcc9d4b 100644
--- a/format/format.go
+++ b/format/format.go
@@ -310,6 +310,7 @@ func (p *Printer) applySpecialLetfn(nodes []parse.Node) {
 				p.specialIndent[fn] = IndentListBody
 			}
 		}
+		return // the vectors that follow are not bindings
 	}
 }
 
-- 
2.43.0


From 59b8f56310ad400355082f7dad84e3f7764bcc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:50 +0000
Subject: [PATCH 18/21] fix: do not leave the lexing goroutine blocked after an
 error

A parse error (or an error while reading) left the lexer goroutine blocked
on its channel forever. Close the channel whenever the lexer stops, and read
the remaining tokens when parsing fails.
---
 parse/lex.go   | 8 +++++++-
 parse/parse.go | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/parse/lex.go b/parse/lex.go
index 87fd008..05fa040 100644
--- a/parse/lex.go
+++ b/parse/lex.go
@@ -228,6 +228,12 @@ func (l *lexer) nextToken() token {
 	return <-l.tokens
 }
 
+// drain reads the rest of the tokens so that the lexing goroutine exits.
+func (l *lexer) drain() {
+	for range l.tokens {
+	}
+}
+
 func (l *lexer) errorf(format string, args ...interface{}) stateFn {
 	l.tokens <- token{tokError, l.start, fmt.Sprintf(format, args...)}
 	return nil
@@ -247,6 +253,7 @@ func (l *lexer) eof() stateFn {
 type stateFn func(*lexer) stateFn
 
 func (l *lexer) run() {
+	defer close(l.tokens)
 	defer func() {
 		if e := recover(); e != nil {
 			if e2, ok := e.(inputReadErr); ok {
@@ -259,7 +266,6 @@ func (l *lexer) run() {
 
 	for state := lexOuter; state != nil; state = state(l) {
 	}
-	close(l.tokens)
 }
 
 func lexOuter(l *lexer) stateFn {
diff --git a/parse/parse.go b/parse/parse.go
index b8e6d8b..f447977 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -74,6 +74,7 @@ func (t *Tree) recover(err *error) {
 		default:
 			panic(e)
 		}
+		t.lex.drain()
 	}
 }
 
-- 
2.43.0


From 2a0417657f048301caccc2d4f265b5165245ef7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 19/21] fix: count columns from the indentation of the first
 element

---
 format/format.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/format.go b/format/format.go
index dcc9d4b..dce9fc1 100644
--- a/format/format.go
+++ b/format/format.go
@@ -704,6 +704,7 @@ func (p *Printer) printSequence(nodes []parse.Node, w int, style IndentStyle) in
 		}
 		if needIndent {
 			p.writeString(strings.Repeat(string(p.IndentChar), w))
+			w2 = w
 		}
 		if needSpace {
 			w2 += p.writeByte(' ')
-- 
2.43.0


From 6421f0138309a6bd58050e7506b63e015e73db82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 20/21] fix: indent a paired element after a comment that ends
 without a newline

---
 format/format.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/format/format.go b/format/format.go
index dce9fc1..4596d16 100644
--- a/format/format.go
+++ b/format/format.go
@@ -678,6 +678,17 @@ func (p *Printer) printSequence(nodes []parse.Node, w int, style IndentStyle) in
 		if afterComment {
 			// The comment was ended by something other than a newline
 			// (such as a carriage return).
+			switch style {
+			case indentBindings,
+				IndentCond0,
+				IndentCond1,
+				IndentCond2,
+				IndentCond4:
+				if pairIdx > 0 {
+					w += 2
+					extraIndent = true
+				}
+			}
 			w2 = w
 			p.writeByte('\n')
 			needIndent = true
-- 
2.43.0


From 90f7b89cb7532a4f04fbca85b987e39ecdf5385b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 21/21] fix: align arguments with a first argument that has
 metadata or a tag

Only a comment after a long form name is exempt from the alignment; the
metadata or tag of the first argument was treated like one.
---
 format/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/format.go b/format/format.go
index 4596d16..da26863 100644
--- a/format/format.go
+++ b/format/format.go
@@ -701,7 +701,7 @@ func (p *Printer) printSequence(nodes []parse.Node, w int, style IndentStyle) in
 		switch style {
 		case IndentList, IndentCond0:
 			if i == 1 {
-				if !semantic && firstLen > indentListMaxCommentAlign {
+				if goclj.Comment(n) && firstLen > indentListMaxCommentAlign {
 					w++
 				} else {
 					w = firstIndent + 1
-- 
2.43.0

