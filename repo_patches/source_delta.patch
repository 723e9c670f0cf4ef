From 17962f88605630d1382841b1d842fb5f18dcf83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:33 +0000
Subject: [PATCH 01/21] fix: strip comments between the words of an operator

A comment inside a multi-word operator, as in "a is -- x
null", was kept
in the operation text. The gorm builder writes that text into the SQL, so
the comment reached the statement.
---
 miniquery/tree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/miniquery/tree.go b/miniquery/tree.go
index 26d4951..8f28093 100644
--- a/miniquery/tree.go
+++ b/miniquery/tree.go
@@ -19,7 +19,8 @@ type Tree struct {
 }
 
 var (
-	regSpace  = regexp.MustCompile(`\s+`)
+	// separators allowed between the words of an operator, see SpaceComment in miniquery.peg
+	regSpace  = regexp.MustCompile(`(?:\s|(?:--|//)[^\r\n]*[\r\n])+`)
 	normalize = map[string]string{
 		">=": "gte",
 		">":  "gt",
-- 
2.43.0


From 9185d2d6fa6607734846db7133c37881518e21e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:02 +0000
Subject: [PATCH 02/21] fix: reject json references instead of dropping their
 prefix

"a->b = 1" was accepted and parsed as "b = 1": no action builds a node for
the reference, so everything before the last name was silently lost.
---
 miniquery/miniquery.peg    | 2 +-
 miniquery/miniquery.peg.go | 8 +-------
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/miniquery/miniquery.peg b/miniquery/miniquery.peg
index c7accad..b408423 100644
--- a/miniquery/miniquery.peg
+++ b/miniquery/miniquery.peg
@@ -25,8 +25,8 @@ ArgumentList        <- '(' _ {p.AddMark()} (Argument ( _ ',' _ Argument)* _ ','?
 Argument            <- Expression
 # Argument            <- Value / Identifier
 
+# JsonReference is not an alternative until there is a node to represent it
 Reference     <- IdentifierReference
-              / JsonReference
               / Identifier
 IdentifierReference <- {p.AddMark()} Identifier '.' Identifier ( '.' Identifier)* {p.PopIdentifierReference()}
 JsonReference <- Identifier '->' (JsonReference / Identifier)
diff --git a/miniquery/miniquery.peg.go b/miniquery/miniquery.peg.go
index a1bac3b..47059aa 100644
--- a/miniquery/miniquery.peg.go
+++ b/miniquery/miniquery.peg.go
@@ -1250,7 +1250,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			position, tokenIndex = position82, tokenIndex82
 			return false
 		},
-		/* 11 Reference <- <(IdentifierReference / JsonReference / Identifier)> */
+		/* 11 Reference <- <(IdentifierReference / Identifier)> */
 		func() bool {
 			position84, tokenIndex84 := position, tokenIndex
 			{
@@ -1262,12 +1262,6 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 					}
 					goto l86
 				l87:
-					position, tokenIndex = position86, tokenIndex86
-					if !_rules[ruleJsonReference]() {
-						goto l88
-					}
-					goto l86
-				l88:
 					position, tokenIndex = position86, tokenIndex86
 					if !_rules[ruleIdentifier]() {
 						goto l84
-- 
2.43.0


From 227ae86f6a2468ab5c9f8a404c96b3c2ba8ddf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:22 +0000
Subject: [PATCH 03/21] fix: make the <>, gte and lte operators reachable

The first matching alternative of a choice wins, so '<' and "gt"/"lt" hid
the longer operators listed after them and queries using those were rejected.
---
 miniquery/miniquery.peg    |  5 +--
 miniquery/miniquery.peg.go | 70 +++++++++++++++++++-------------------
 2 files changed, 38 insertions(+), 37 deletions(-)

diff --git a/miniquery/miniquery.peg b/miniquery/miniquery.peg
index b408423..6bef9c7 100644
--- a/miniquery/miniquery.peg
+++ b/miniquery/miniquery.peg
@@ -32,8 +32,9 @@ IdentifierReference <- {p.AddMark()} Identifier '.' Identifier ( '.' Identifier)
 JsonReference <- Identifier '->' (JsonReference / Identifier)
 Identifier    <- !"not" <[a-zA-Z]([_a-zA-Z0-9])*> {p.AddName(text)}
 
-Compare <- _ <( '>=' / '<=' / '==' / '!=' /  '>' / '<'  / '<>' / '=' )> _ {p.AddCompare(text)}
-        / _ <( "gt" / "lt" / "gte" / "lte" / "eq" / "neq" )> _ {p.AddCompare(text)}
+# longer operators first, the first matching alternative wins
+Compare <- _ <( '>=' / '<=' / '==' / '!=' / '<>' / '>' / '<' / '=' )> _ {p.AddCompare(text)}
+        / _ <( "gte" / "lte" / "gt" / "lt" / "eq" / "neq" )> _ {p.AddCompare(text)}
         / _ <( "like" / "not" __ "like" )> _ {p.AddCompare(text)}
         # / _ <( "in" / "not" __ "in"  )> _ {p.AddCompare(text)}
 
diff --git a/miniquery/miniquery.peg.go b/miniquery/miniquery.peg.go
index 47059aa..d51008e 100644
--- a/miniquery/miniquery.peg.go
+++ b/miniquery/miniquery.peg.go
@@ -1470,7 +1470,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			position, tokenIndex = position97, tokenIndex97
 			return false
 		},
-		/* 15 Compare <- <((_ <(('>' '=') / ('<' '=') / ('=' '=') / '<' / ((&('=') '=') | (&('<') ('<' '>')) | (&('>') '>') | (&('!') ('!' '='))))> _ Action15) / (_ <((('g' / 'G') ('t' / 'T')) / (('l' / 'L') ('t' / 'T')) / ((&('N' | 'n') (('n' / 'N') ('e' / 'E') ('q' / 'Q'))) | (&('E' | 'e') (('e' / 'E') ('q' / 'Q'))) | (&('L' | 'l') (('l' / 'L') ('t' / 'T') ('e' / 'E'))) | (&('G' | 'g') (('g' / 'G') ('t' / 'T') ('e' / 'E')))))> _ Action16) / (_ <((('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E')) / (('n' / 'N') ('o' / 'O') ('t' / 'T') __ (('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E'))))> _ Action17))> */
+		/* 15 Compare <- <((_ <(('>' '=') / ('<' '=') / ('=' '=') / ('<' '>') / ((&('=') '=') | (&('<') '<') | (&('>') '>') | (&('!') ('!' '='))))> _ Action15) / (_ <((('g' / 'G') ('t' / 'T') ('e' / 'E')) / (('l' / 'L') ('t' / 'T') ('e' / 'E')) / ((&('N' | 'n') (('n' / 'N') ('e' / 'E') ('q' / 'Q'))) | (&('E' | 'e') (('e' / 'E') ('q' / 'Q'))) | (&('L' | 'l') (('l' / 'L') ('t' / 'T'))) | (&('G' | 'g') (('g' / 'G') ('t' / 'T')))))> _ Action16) / (_ <((('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E')) / (('n' / 'N') ('o' / 'O') ('t' / 'T') __ (('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E'))))> _ Action17))> */
 		func() bool {
 			position112, tokenIndex112 := position, tokenIndex
 			{
@@ -1521,6 +1521,10 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 								goto l121
 							}
 							position++
+							if buffer[position] != rune('>') {
+								goto l121
+							}
+							position++
 							goto l117
 						l121:
 							position, tokenIndex = position117, tokenIndex117
@@ -1536,10 +1540,6 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 										goto l115
 									}
 									position++
-									if buffer[position] != rune('>') {
-										goto l115
-									}
-									position++
 								case '>':
 									if buffer[position] != rune('>') {
 										goto l115
@@ -1607,6 +1607,21 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 								position++
 							}
 						l129:
+							{
+								position157, tokenIndex157 := position, tokenIndex
+								if buffer[position] != rune('e') {
+									goto l158
+								}
+								position++
+								goto l157
+							l158:
+								position, tokenIndex = position157, tokenIndex157
+								if buffer[position] != rune('E') {
+									goto l126
+								}
+								position++
+							}
+						l157:
 							goto l125
 						l126:
 							position, tokenIndex = position125, tokenIndex125
@@ -1640,6 +1655,21 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 								position++
 							}
 						l134:
+							{
+								position151, tokenIndex151 := position, tokenIndex
+								if buffer[position] != rune('e') {
+									goto l152
+								}
+								position++
+								goto l151
+							l152:
+								position, tokenIndex = position151, tokenIndex151
+								if buffer[position] != rune('E') {
+									goto l131
+								}
+								position++
+							}
+						l151:
 							goto l125
 						l131:
 							position, tokenIndex = position125, tokenIndex125
@@ -1755,21 +1785,6 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 										position++
 									}
 								l149:
-									{
-										position151, tokenIndex151 := position, tokenIndex
-										if buffer[position] != rune('e') {
-											goto l152
-										}
-										position++
-										goto l151
-									l152:
-										position, tokenIndex = position151, tokenIndex151
-										if buffer[position] != rune('E') {
-											goto l123
-										}
-										position++
-									}
-								l151:
 									break
 								default:
 									{
@@ -1802,21 +1817,6 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 										position++
 									}
 								l155:
-									{
-										position157, tokenIndex157 := position, tokenIndex
-										if buffer[position] != rune('e') {
-											goto l158
-										}
-										position++
-										goto l157
-									l158:
-										position, tokenIndex = position157, tokenIndex157
-										if buffer[position] != rune('E') {
-											goto l123
-										}
-										position++
-									}
-								l157:
 									break
 								}
 							}
-- 
2.43.0


From 61ef4635e36a6e288a98d5c56f65b7501ffd8cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:24 +0000
Subject: [PATCH 04/21] fix: let and bind tighter than or in the syntax tree

"a or b and c" was parsed as "(a or b) and c". The SQL builders print the
tree flat and were not affected, but the entql builder follows the tree and
gave the query another meaning than gorm and entsql.
---
 miniquery/tree.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/miniquery/tree.go b/miniquery/tree.go
index 8f28093..441a9cb 100644
--- a/miniquery/tree.go
+++ b/miniquery/tree.go
@@ -127,6 +127,17 @@ func (t *Tree) PopLogic() {
 	right := t.Pop()
 	op := t.Pop()
 	left := t.Pop()
+	// and binds tighter than or
+	if op.Operation == OpAnd && left.Type == LogicExpressionType && left.Op.Operation == OpOr {
+		left.Right = &Node{
+			Type:  LogicExpressionType,
+			Left:  left.Right,
+			Op:    op,
+			Right: right,
+		}
+		t.Push(left)
+		return
+	}
 	t.Push(&Node{
 		Type:  LogicExpressionType,
 		Left:  left,
-- 
2.43.0


From 84f2e38dd8f8082c34140fc2a7eaf31e2ba2f1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:25 +0000
Subject: [PATCH 05/21] fix: write the name of nested functions in Build

The name was taken from the root node, so "date(a) = 1" was built as
"(a) == 1".
---
 miniquery/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/miniquery/node.go b/miniquery/node.go
index c89b2f8..d472233 100644
--- a/miniquery/node.go
+++ b/miniquery/node.go
@@ -176,7 +176,7 @@ func Build(n *Node) string {
 		case ReferenceNodeType:
 			buf.WriteString(strings.Join(node.Names, "."))
 		case FunctionExpressionType:
-			buf.WriteString(n.Name)
+			buf.WriteString(node.Name)
 			buf.WriteRune('(')
 			n := len(node.Params)
 			for i, v := range node.Params {
-- 
2.43.0


From 4520468d8eedad22178a85d07ab39b16f4a7c52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:26 +0000
Subject: [PATCH 06/21] fix: keep string values unchanged in Build

Strings were written with Go escapes, which the syntax does not have. A
value with a quote or a backslash did not parse back to the same value.
---
 miniquery/node.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/miniquery/node.go b/miniquery/node.go
index d472233..81d0fcf 100644
--- a/miniquery/node.go
+++ b/miniquery/node.go
@@ -209,7 +209,14 @@ func buildValue(buf *strings.Builder, node *Node, visit func(node *Node)) {
 		}
 		buf.WriteRune(']')
 	case StringValueType:
-		_, _ = fmt.Fprintf(buf, "%q", node.Str)
+		// the syntax has no escapes, a string can not contain the quote around it
+		quote := '"'
+		if strings.ContainsRune(node.Str, quote) {
+			quote = '\''
+		}
+		buf.WriteRune(quote)
+		buf.WriteString(node.Str)
+		buf.WriteRune(quote)
 	default:
 		value := node.Value()
 		if value == nil {
-- 
2.43.0


From a1477dbe69e24397e217848ff3fc13a3f3c2c8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:43 +0000
Subject: [PATCH 07/21] fix: make Visitor.Init set the default callbacks

Init worked on a copy of the visitor, so every callback the caller left out
stayed nil and Visit panicked. Functions were also sent to the between
callback.
---
 miniquery/visitor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/miniquery/visitor.go b/miniquery/visitor.go
index 3373fa1..0966004 100644
--- a/miniquery/visitor.go
+++ b/miniquery/visitor.go
@@ -23,7 +23,7 @@ type (
 	}
 )
 
-func (v Visitor) Init() {
+func (v *Visitor) Init() {
 	noop := func(ctx context.Context, node *Node) (err error) {
 		return
 	}
@@ -129,7 +129,7 @@ func (v Visitor) Visit(ctx context.Context, n *Node) error {
 	case BetweenExpressionType:
 		return v.BetweenExpression(ctx, n)
 	case FunctionExpressionType:
-		return v.BetweenExpression(ctx, n)
+		return v.FunctionExpression(ctx, n)
 	}
 	return errors.Errorf("invalid type %q", n.Type)
 }
-- 
2.43.0


From b82608dbbea437d4dd8001488e5e9ffef3372729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:58 +0000
Subject: [PATCH 08/21] fix: negate not expressions in entql

The error check was inverted: "not a = 1" was built as "a = 1", and an
error below the not made the builder panic.
---
 entmq/entql.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/entmq/entql.go b/entmq/entql.go
index 7f08713..e32981f 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -86,8 +86,12 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 		err = visit(node.Expression)
 	case miniquery.NotExpressionType:
 		err = visit(node.Expression)
-		if err != nil {
-			mb.push(entql.Not(mb.pop().(entql.P)))
+		if err == nil {
+			p, ok := mb.pop().(entql.P)
+			if !ok {
+				return errors.Errorf("not a predicate: %q", node.Expression)
+			}
+			mb.push(entql.Not(p))
 		}
 	case miniquery.FunctionExpressionType:
 		// err = qb.visitFunction(node)
-- 
2.43.0


From 56ba1899bb7b2141bf6ce7647c91cb3fde44f319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:59 +0000
Subject: [PATCH 09/21] fix: return errors for queries entql can not express

"a is null" and a query that is a plain field or value made the builder
panic. A function was dropped: alone it gave no predicate and no error, as an
operand it made the builder panic.
---
 entmq/entql.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/entmq/entql.go b/entmq/entql.go
index e32981f..209eb33 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -54,7 +54,10 @@ func (mb *MiniQLToEntQLBuilder) Build() (p entql.P, err error) {
 	}
 	err = mb.visit(node)
 	if err == nil && len(mb.stack) > 0 {
-		p = mb.pop().(entql.P)
+		var ok bool
+		if p, ok = mb.pop().(entql.P); !ok {
+			return nil, errors.Errorf("not a predicate: %q", mb.Query)
+		}
 		if len(mb.stack) > 1 {
 			slog.With("query", mb.Query).Error("unexpected MiniQLBuilder stack size", "size", len(mb.stack))
 		}
@@ -95,7 +98,7 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 		}
 	case miniquery.FunctionExpressionType:
 		// err = qb.visitFunction(node)
-
+		return errors.Errorf("unsupported function: %q", node.Name)
 	case miniquery.BetweenExpressionType:
 		err = visit(node.Left)
 		if err == nil {
@@ -129,7 +132,7 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 
 		}
 	case miniquery.PredicatesExpressionType:
-		panic("TODO")
+		return errors.Errorf("unsupported predicate: %q", node.Op.Operation)
 	case miniquery.LogicExpressionType:
 		fallthrough
 	case miniquery.CompareExpressionType:
-- 
2.43.0


From 2636a9de3c169d22bc107dfc8b6354b2261e40b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:00 +0000
Subject: [PATCH 10/21] fix: skip empty queries in ApplyEntQL

Build returns no predicate for an empty query, and the nil predicate passed
to Where makes ent panic when it evaluates it.
---
 entmq/entql.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/entmq/entql.go b/entmq/entql.go
index 209eb33..97fa939 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -15,6 +15,10 @@ func ApplyEntQL(q interface{ Where(p entql.P) }, queries []string) error {
 		if err != nil {
 			return errors.Wrapf(err, "failed to apply query: %q", v)
 		}
+		// empty query
+		if p == nil {
+			continue
+		}
 		q.Where(p)
 	}
 	return nil
-- 
2.43.0


From 23af4b79afbe3b744222b6688f1f15d5bbf92f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:15 +0000
Subject: [PATCH 11/21] fix: check the number of date arguments in entsql

"date()" made the builder panic, and all arguments but the first were
ignored.
---
 entmq/entsql.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 3f1c888..89d8a50 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -90,6 +90,10 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		case "date":
 			// 截取为日期
 			// date(xxx)
+			if len(node.Params) != 1 {
+				err = errors.Errorf("invalid number of arguments for %q: %d", node.Name, len(node.Params))
+				break
+			}
 			s.WriteString("DATE(")
 			err = mb.visit(node.Params[0])
 			s.WriteString(")")
-- 
2.43.0


From 59079a3cdf62c52d98e1d875b6830b640c05af88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:16 +0000
Subject: [PATCH 12/21] fix: return an error when has_edge has no schema to
 work on

The builder panicked when used without Node, or with a node that has a
composite id instead of an id column.
---
 entmq/entsql.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 89d8a50..2337084 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -106,12 +106,21 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 			}
 
 			tab := mb.Node
+			if tab == nil {
+				err = errors.New("has_edge requires a schema node")
+				break
+			}
 			builder := sql.Dialect(mb.Dialect()).Select().From(sql.Table(tab.Table).Schema(tab.Schema))
 			edge, ok := tab.Edges[params[0].Name]
 			if !ok {
 				err = errors.Errorf("不存在关联: %q", params[0].Name)
 				break
 			}
+			// no single id column when using a composite id
+			if tab.ID == nil || edge.To.ID == nil {
+				err = errors.Errorf("has_edge requires an id: %q", params[0].Name)
+				break
+			}
 			switch len(params) {
 			case 1:
 				sqlgraph.HasNeighbors(builder, sqlgraph.NewStep(
-- 
2.43.0


From 91afe986e4b512e0eada816ffd65900eea4ebacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:48 +0000
Subject: [PATCH 13/21] fix: report errors of a has_edge filter

The error was checked before the nested filter was built, and ent does
not propagate errors of nested builders, so an invalid filter ended up
as broken SQL without an error. Also write the condition to the builder
selected by SQLBuilder.
---
 entmq/entsql.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 2337084..0eb9298 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -110,7 +110,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				err = errors.New("has_edge requires a schema node")
 				break
 			}
-			builder := sql.Dialect(mb.Dialect()).Select().From(sql.Table(tab.Table).Schema(tab.Schema))
+			builder := sql.Dialect(s.Dialect()).Select().From(sql.Table(tab.Table).Schema(tab.Schema))
 			edge, ok := tab.Edges[params[0].Name]
 			if !ok {
 				err = errors.Errorf("不存在关联: %q", params[0].Name)
@@ -121,6 +121,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				err = errors.Errorf("has_edge requires an id: %q", params[0].Name)
 				break
 			}
+			var edgeErr error
 			switch len(params) {
 			case 1:
 				sqlgraph.HasNeighbors(builder, sqlgraph.NewStep(
@@ -148,6 +149,8 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 						err := mb.Err()
 						if err != nil {
 							builder.AddError(err)
+							// errors of a nested builder are not propagated by ent
+							edgeErr = err
 						}
 					}))
 				})
@@ -160,8 +163,10 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				rf := rv.FieldByName("where")
 				rf = reflect.NewAt(rf.Type(), unsafe.Pointer(rf.UnsafeAddr())).Elem()
 				p := rf.Interface().(*sql.Predicate)
-				err = p.Err()
-				mb.Join(p)
+				s.Join(p)
+				if err = p.Err(); err == nil {
+					err = edgeErr
+				}
 			}
 		default:
 			err = errors.Errorf("不支持的函数: %q", node.Name)
-- 
2.43.0


From da82b770cfeec594afb0d5d26a7034fd07ba011f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:24 +0000
Subject: [PATCH 14/21] fix: group or conditions in entsql

"a = 1 or b = 2" used next to other conditions, or as a has_edge filter,
was written as "x AND a = 1 OR b = 2". The second part then matched
without the other conditions.
---
 entmq/entsql.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 0eb9298..4428b3c 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -33,7 +33,12 @@ func (mb *MiniQLToEntSQLBuilder) Query() (string, []interface{}) {
 		}
 		mb.ast = ast
 	}
-	err := mb.visit(mb.ast)
+	node := mb.ast
+	// the result is usually combined with other conditions
+	if node.Type == miniquery.LogicExpressionType && node.Op.Operation == miniquery.OpOr {
+		node = &miniquery.Node{Type: miniquery.ParenthesesExpressionType, Expression: node}
+	}
+	err := mb.visit(node)
 	if err != nil {
 		mb.AddError(err)
 		return "", nil
-- 
2.43.0


From fa2415d6a641a366f174193add1be238b5416ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:45 +0000
Subject: [PATCH 15/21] fix: group between operands in entsql

between is written as two conditions joined by AND, so "not a between 1
and 2" negated the first condition only.
---
 entmq/entsql.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 4428b3c..9ac55e4 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -88,7 +88,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		s.WriteString(")")
 	case miniquery.NotExpressionType:
 		s.WriteString("NOT ")
-		err = visit(node.Expression)
+		err = mb.visitOperand(node.Expression)
 	case miniquery.FunctionExpressionType:
 		// err = qb.visitFunction(node)
 		switch node.Name {
@@ -204,12 +204,12 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		if !found {
 			return errors.Errorf("unexpected predicate op %q", node.Op.Operation)
 		}
-		err = visit(node.Left)
+		err = mb.visitOperand(node.Left)
 		s.WriteOp(op)
 	case miniquery.LogicExpressionType:
 		fallthrough
 	case miniquery.CompareExpressionType:
-		err = visit(node.Left)
+		err = mb.visitOperand(node.Left)
 		op, found := entsqlOpMap[node.Op.Operation]
 		if !found {
 			switch node.Op.Operation {
@@ -228,7 +228,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 			return errors.Errorf("unexpected op %q", node.Op.Operation)
 		}
 		if err == nil {
-			err = visit(node.Right)
+			err = mb.visitOperand(node.Right)
 		}
 	default:
 		return errors.Errorf("invalid type %q", node.Type)
@@ -236,6 +236,14 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 	return err
 }
 
+// visitOperand groups between, which is written as two conditions
+func (mb *MiniQLToEntSQLBuilder) visitOperand(node *miniquery.Node) error {
+	if node.Type == miniquery.BetweenExpressionType {
+		node = &miniquery.Node{Type: miniquery.ParenthesesExpressionType, Expression: node}
+	}
+	return mb.visit(node)
+}
+
 var entsqlOpMap = map[miniquery.OpType]sql.Op{
 	miniquery.OpEQ:        sql.OpEQ,
 	miniquery.OpNEQ:       sql.OpNEQ,
-- 
2.43.0


From a9443f089671e234d2e99c0517387ee493fc68dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:46 +0000
Subject: [PATCH 16/21] fix: separate function arguments in gormq

"date(a, b)" was written as "date(`a``b`)", which databases read as one
column name.
---
 gormq/miniquery.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 278a07f..dba1720 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -213,7 +213,10 @@ func (qb *queryBuilder) visitFunction(node *miniquery.Node) (err error) {
 	case "date":
 		buf.WriteString(node.Name)
 		buf.WriteString("(")
-		for _, v := range node.Params {
+		for i, v := range node.Params {
+			if i > 0 {
+				buf.WriteString(",")
+			}
 			if err = visit(v); err != nil {
 				return
 			}
-- 
2.43.0


From 46d4a2b67095c697e4fc2bc52594780857eaad4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:47 +0000
Subject: [PATCH 17/21] fix: reject fields without a column in gormq

Using a relation field as column produced an empty column name.
---
 gormq/miniquery.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index dba1720..e71e700 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -232,11 +232,12 @@ func getDBName(st *schema.Schema, name string) (string, bool) {
 	if _, ok := st.FieldsByDBName[name]; ok {
 		return name, true
 	}
-	if f, ok := st.FieldsByName[name]; ok {
+	// relation fields have no column
+	if f, ok := st.FieldsByName[name]; ok && f.DBName != "" {
 		return f.DBName, true
 	}
 	for _, f := range st.Fields {
-		if strings.EqualFold(f.Name, name) {
+		if f.DBName != "" && strings.EqualFold(f.Name, name) {
 			return f.DBName, true
 		}
 	}
-- 
2.43.0


From d0bb2ff76089561208dc28071ff69025322b1ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:48 +0000
Subject: [PATCH 18/21] fix: check each query of a MiniQuery scope

"1=1) or (1=1" is not valid on its own but closed the group added when
joining queries, which turned the other queries off.
---
 gormq/miniquery.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index e71e700..e9cf117 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -16,6 +16,16 @@ type MiniQuery struct {
 }
 
 func (q MiniQuery) Scope(db *gorm.DB) *gorm.DB {
+	// Join works on text, each query has to be complete on its own
+	for _, v := range q.Query {
+		if strings.TrimSpace(v) == "" {
+			continue
+		}
+		if _, err := miniquery.Parse(v); err != nil {
+			_ = db.AddError(fmt.Errorf("invalid query syntax: %v", err))
+			return db
+		}
+	}
 	return WireMiniQuery(db, miniquery.Join(q.Query))
 }
 
-- 
2.43.0


From cc1a4ea0029b76f4a4a84ac8d139cf365db1db8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:04 +0000
Subject: [PATCH 19/21] fix: group conditions that are compared in gormq

---
 gormq/miniquery.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index e9cf117..1f0c0d6 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -201,14 +201,18 @@ func (qb *queryBuilder) visit(node *miniquery.Node) (err error) {
 	case miniquery.LogicExpressionType:
 		fallthrough
 	case miniquery.CompareExpressionType:
-		err = visit(node.Left)
+		operand := visit
+		if node.Type != miniquery.LogicExpressionType {
+			operand = qb.visitOperand
+		}
+		err = operand(node.Left)
 		if err == nil {
 			buf.WriteRune(' ')
 			err = visit(node.Op)
 		}
 		if err == nil && node.Right != nil {
 			buf.WriteRune(' ')
-			err = visit(node.Right)
+			err = operand(node.Right)
 		}
 	default:
 		return errors.Errorf("invalid type %q", node.Type)
@@ -216,6 +220,15 @@ func (qb *queryBuilder) visit(node *miniquery.Node) (err error) {
 	return err
 }
 
+// visitOperand groups conditions that are compared, databases chain comparisons differently
+func (qb *queryBuilder) visitOperand(node *miniquery.Node) error {
+	switch node.Type {
+	case miniquery.CompareExpressionType, miniquery.PredicatesExpressionType, miniquery.BetweenExpressionType:
+		node = &miniquery.Node{Type: miniquery.ParenthesesExpressionType, Expression: node}
+	}
+	return qb.visit(node)
+}
+
 func (qb *queryBuilder) visitFunction(node *miniquery.Node) (err error) {
 	buf := qb.buf
 	visit := qb.visit
-- 
2.43.0


From 18d1d721ebe76d6ecd8e44a73d6a49ae77122051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:05 +0000
Subject: [PATCH 20/21] fix: group conditions that are compared in entsql

---
 entmq/entsql.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 9ac55e4..82ca2e9 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -88,7 +88,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		s.WriteString(")")
 	case miniquery.NotExpressionType:
 		s.WriteString("NOT ")
-		err = mb.visitOperand(node.Expression)
+		err = mb.visitOperand(node, node.Expression)
 	case miniquery.FunctionExpressionType:
 		// err = qb.visitFunction(node)
 		switch node.Name {
@@ -204,12 +204,12 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		if !found {
 			return errors.Errorf("unexpected predicate op %q", node.Op.Operation)
 		}
-		err = mb.visitOperand(node.Left)
+		err = mb.visitOperand(node, node.Left)
 		s.WriteOp(op)
 	case miniquery.LogicExpressionType:
 		fallthrough
 	case miniquery.CompareExpressionType:
-		err = mb.visitOperand(node.Left)
+		err = mb.visitOperand(node, node.Left)
 		op, found := entsqlOpMap[node.Op.Operation]
 		if !found {
 			switch node.Op.Operation {
@@ -228,7 +228,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 			return errors.Errorf("unexpected op %q", node.Op.Operation)
 		}
 		if err == nil {
-			err = mb.visitOperand(node.Right)
+			err = mb.visitOperand(node, node.Right)
 		}
 	default:
 		return errors.Errorf("invalid type %q", node.Type)
@@ -236,9 +236,16 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 	return err
 }
 
-// visitOperand groups between, which is written as two conditions
-func (mb *MiniQLToEntSQLBuilder) visitOperand(node *miniquery.Node) error {
-	if node.Type == miniquery.BetweenExpressionType {
+// visitOperand groups between, which is written as two conditions, and conditions that are compared
+func (mb *MiniQLToEntSQLBuilder) visitOperand(parent, node *miniquery.Node) error {
+	group := false
+	switch node.Type {
+	case miniquery.BetweenExpressionType:
+		group = true
+	case miniquery.CompareExpressionType, miniquery.PredicatesExpressionType:
+		group = parent.Type == miniquery.CompareExpressionType || parent.Type == miniquery.PredicatesExpressionType
+	}
+	if group {
 		node = &miniquery.Node{Type: miniquery.ParenthesesExpressionType, Expression: node}
 	}
 	return mb.visit(node)
-- 
2.43.0


From 41e7993fa79cbc17f99a56498a0a85684192d330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:06 +0000
Subject: [PATCH 21/21] fix: accept only names as the edge of has_edge

has_edge(owner(age > 1)) was read as has_edge(owner), which dropped the
arguments of the call.
---
 entmq/entsql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 82ca2e9..c254dc0 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -105,7 +105,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		case "has_edge":
 
 			params := node.Params
-			if len(params) == 0 || params[0].Name == "" {
+			if len(params) == 0 || params[0].Type != miniquery.IdentifierNodeType {
 				err = errors.New("关联参数错误")
 				break
 			}
-- 
2.43.0

