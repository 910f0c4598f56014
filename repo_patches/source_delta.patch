From 771b5b4825f4967c7671955c5bbb43fd12e5b809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:44:46 +0000
Subject: [PATCH 01/47] fix: print the called function's own name when building
 nested calls

Build wrote the name of the root node for every function call, so
'date(a) = f(1)' was printed as '(a) == (1)'.
---
 miniquery/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/miniquery/node.go b/miniquery/node.go
index c89b2f8..d472233 100644
--- a/miniquery/node.go
+++ b/miniquery/node.go
@@ -176,7 +176,7 @@ func Build(n *Node) string {
 		case ReferenceNodeType:
 			buf.WriteString(strings.Join(node.Names, "."))
 		case FunctionExpressionType:
-			buf.WriteString(n.Name)
+			buf.WriteString(node.Name)
 			buf.WriteRune('(')
 			n := len(node.Params)
 			for i, v := range node.Params {
-- 
2.43.0


From a944d0af0a8235424b89d85feb7908f936ff6e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:44:46 +0000
Subject: [PATCH 02/47] fix: build string literals in the quoting the grammar
 understands

Build printed strings as Go literals, but the grammar has no escapes.
A string holding a quote, a backslash or a line break came back as a
different value, or as different conditions, when parsed again.
---
 miniquery/node.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/miniquery/node.go b/miniquery/node.go
index d472233..804c85e 100644
--- a/miniquery/node.go
+++ b/miniquery/node.go
@@ -209,7 +209,14 @@ func buildValue(buf *strings.Builder, node *Node, visit func(node *Node)) {
 		}
 		buf.WriteRune(']')
 	case StringValueType:
-		_, _ = fmt.Fprintf(buf, "%q", node.Str)
+		// strings have no escape syntax, a literal can hold anything but its own quote
+		quote := `"`
+		if strings.Contains(node.Str, quote) {
+			quote = "'"
+		}
+		buf.WriteString(quote)
+		buf.WriteString(node.Str)
+		buf.WriteString(quote)
 	default:
 		value := node.Value()
 		if value == nil {
-- 
2.43.0


From a95aafd9fb1c4401af330d0978495d9b61e43181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:45:01 +0000
Subject: [PATCH 03/47] fix: drop comments from multi-word operators

A comment between the words of an operator ('a not -- x' newline 'in (1)')
stayed in the operator text. gormq copied it into the SQL, and the ent
builders read 'not <comment> between' as 'between'.
---
 miniquery/tree.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/miniquery/tree.go b/miniquery/tree.go
index 26d4951..d09f480 100644
--- a/miniquery/tree.go
+++ b/miniquery/tree.go
@@ -19,8 +19,9 @@ type Tree struct {
 }
 
 var (
-	regSpace  = regexp.MustCompile(`\s+`)
-	normalize = map[string]string{
+	regSpace   = regexp.MustCompile(`\s+`)
+	regComment = regexp.MustCompile(`(--|//)[^\r\n]*`)
+	normalize  = map[string]string{
 		">=": "gte",
 		">":  "gt",
 		"==": "eq",
@@ -42,6 +43,7 @@ var (
 )
 
 func NormalizeOperation(s string) string {
+	s = regComment.ReplaceAllString(s, " ")
 	s = strings.TrimSpace(s)
 	s = strings.ToLower(s)
 	s = regSpace.ReplaceAllString(s, " ")
-- 
2.43.0


From e19b11e0659514804a67830fc25ff1ae993d0a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:45:01 +0000
Subject: [PATCH 04/47] fix: reject json references instead of filtering on the
 last name

No node is built for 'a->b'; the names stayed on the stack separately,
so 'a->b = 1' was parsed as 'b = 1' and 'f(a->b)' as 'f(a,b)'.
---
 miniquery/parse.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/miniquery/parse.go b/miniquery/parse.go
index 110347f..ee0808d 100644
--- a/miniquery/parse.go
+++ b/miniquery/parse.go
@@ -1,5 +1,7 @@
 package miniquery
 
+import "errors"
+
 func Parse(s string) (*Node, error) {
 	p := &MiniQueryPeg{Tree: &Tree{}, Buffer: s}
 	if err := p.Init(); err != nil {
@@ -8,6 +10,11 @@ func Parse(s string) (*Node, error) {
 	if err := p.Parse(); err != nil {
 		return nil, err
 	}
+	for _, token := range p.Tokens() {
+		if token.pegRule == ruleJsonReference {
+			return nil, errors.New("json reference is not supported")
+		}
+	}
 	p.Execute()
 	if len(p.Errors) != 0 {
 		return nil, p.Errors[0]
-- 
2.43.0


From 0d8eb003b8eef0aa9ad71e9149880e29ab07405e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:45:01 +0000
Subject: [PATCH 05/47] fix: let and bind tighter than or

The tree grouped 'a or b and c' as '(a or b) and c'. The SQL builders
print it without parentheses, so the database reads 'a or (b and c)',
while entql evaluated the other grouping.
---
 miniquery/tree.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/miniquery/tree.go b/miniquery/tree.go
index d09f480..010d63b 100644
--- a/miniquery/tree.go
+++ b/miniquery/tree.go
@@ -128,6 +128,17 @@ func (t *Tree) PopLogic() {
 	right := t.Pop()
 	op := t.Pop()
 	left := t.Pop()
+	// and binds tighter than or, as in SQL: a or b and c is a or (b and c)
+	if op.Operation == OpAnd && left.Type == LogicExpressionType && left.Op.Operation == OpOr {
+		left.Right = &Node{
+			Type:  LogicExpressionType,
+			Left:  left.Right,
+			Op:    op,
+			Right: right,
+		}
+		t.Push(left)
+		return
+	}
 	t.Push(&Node{
 		Type:  LogicExpressionType,
 		Left:  left,
-- 
2.43.0


From f4fe77869cbaa97f1d69a52af446f9bb9c32e1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:45:19 +0000
Subject: [PATCH 06/47] fix: reject extremely nested queries instead of
 overflowing the stack

A query of a million opening parentheses made the recursive parser exceed
Go's stack limit, which ends the whole process and cannot be recovered.
---
 miniquery/parse.go | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/miniquery/parse.go b/miniquery/parse.go
index ee0808d..10af512 100644
--- a/miniquery/parse.go
+++ b/miniquery/parse.go
@@ -1,8 +1,17 @@
 package miniquery
 
-import "errors"
+import (
+	"errors"
+	"strings"
+)
+
+// maxDepth limits the nesting of parentheses, the parser is recursive
+const maxDepth = 10000
 
 func Parse(s string) (*Node, error) {
+	if nestedDepth(s) > maxDepth {
+		return nil, errors.New("expression nested too deep")
+	}
 	p := &MiniQueryPeg{Tree: &Tree{}, Buffer: s}
 	if err := p.Init(); err != nil {
 		return nil, err
@@ -21,3 +30,31 @@ func Parse(s string) (*Node, error) {
 	}
 	return p.Pop(), nil
 }
+
+// nestedDepth returns the deepest level of parentheses outside of strings and comments
+func nestedDepth(s string) (max int) {
+	depth := 0
+	for i := 0; i < len(s); i++ {
+		end := ""
+		switch c := s[i]; {
+		case c == '(':
+			if depth++; depth > max {
+				max = depth
+			}
+		case c == ')':
+			depth--
+		case c == '\'' || c == '"':
+			end = s[i : i+1]
+		case strings.HasPrefix(s[i:], "--") || strings.HasPrefix(s[i:], "//"):
+			end = "\r\n"
+		}
+		if end != "" {
+			n := strings.IndexAny(s[i+1:], end)
+			if n < 0 {
+				return max
+			}
+			i += n + 1
+		}
+	}
+	return max
+}
-- 
2.43.0


From 550d341d8321bc7d5ea0516e6fecdb670847fea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:26 +0000
Subject: [PATCH 07/47] fix: accept the operators <>, gte and lte

The grammar tried '<' before '<>' and 'gt' before 'gte'. The choice is
ordered, so the longer spellings could never match. The generated parser
is changed by hand in the same way.
---
 miniquery/miniquery.peg    |  5 +--
 miniquery/miniquery.peg.go | 70 +++++++++++++++++++-------------------
 2 files changed, 38 insertions(+), 37 deletions(-)

diff --git a/miniquery/miniquery.peg b/miniquery/miniquery.peg
index c7accad..bdfef15 100644
--- a/miniquery/miniquery.peg
+++ b/miniquery/miniquery.peg
@@ -32,8 +32,9 @@ IdentifierReference <- {p.AddMark()} Identifier '.' Identifier ( '.' Identifier)
 JsonReference <- Identifier '->' (JsonReference / Identifier)
 Identifier    <- !"not" <[a-zA-Z]([_a-zA-Z0-9])*> {p.AddName(text)}
 
-Compare <- _ <( '>=' / '<=' / '==' / '!=' /  '>' / '<'  / '<>' / '=' )> _ {p.AddCompare(text)}
-        / _ <( "gt" / "lt" / "gte" / "lte" / "eq" / "neq" )> _ {p.AddCompare(text)}
+# longer operators first, the choice is ordered
+Compare <- _ <( '>=' / '<=' / '==' / '!=' / '<>' / '>' / '<' / '=' )> _ {p.AddCompare(text)}
+        / _ <( "gte" / "lte" / "gt" / "lt" / "eq" / "neq" )> _ {p.AddCompare(text)}
         / _ <( "like" / "not" __ "like" )> _ {p.AddCompare(text)}
         # / _ <( "in" / "not" __ "in"  )> _ {p.AddCompare(text)}
 
diff --git a/miniquery/miniquery.peg.go b/miniquery/miniquery.peg.go
index a1bac3b..ae93b5a 100644
--- a/miniquery/miniquery.peg.go
+++ b/miniquery/miniquery.peg.go
@@ -1476,7 +1476,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			position, tokenIndex = position97, tokenIndex97
 			return false
 		},
-		/* 15 Compare <- <((_ <(('>' '=') / ('<' '=') / ('=' '=') / '<' / ((&('=') '=') | (&('<') ('<' '>')) | (&('>') '>') | (&('!') ('!' '='))))> _ Action15) / (_ <((('g' / 'G') ('t' / 'T')) / (('l' / 'L') ('t' / 'T')) / ((&('N' | 'n') (('n' / 'N') ('e' / 'E') ('q' / 'Q'))) | (&('E' | 'e') (('e' / 'E') ('q' / 'Q'))) | (&('L' | 'l') (('l' / 'L') ('t' / 'T') ('e' / 'E'))) | (&('G' | 'g') (('g' / 'G') ('t' / 'T') ('e' / 'E')))))> _ Action16) / (_ <((('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E')) / (('n' / 'N') ('o' / 'O') ('t' / 'T') __ (('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E'))))> _ Action17))> */
+		/* 15 Compare <- <((_ <(('>' '=') / ('<' '=') / ('=' '=') / ('<' '>') / ((&('=') '=') | (&('<') '<') | (&('>') '>') | (&('!') ('!' '='))))> _ Action15) / (_ <((('g' / 'G') ('t' / 'T') ('e' / 'E')) / (('l' / 'L') ('t' / 'T') ('e' / 'E')) / ((&('N' | 'n') (('n' / 'N') ('e' / 'E') ('q' / 'Q'))) | (&('E' | 'e') (('e' / 'E') ('q' / 'Q'))) | (&('L' | 'l') (('l' / 'L') ('t' / 'T'))) | (&('G' | 'g') (('g' / 'G') ('t' / 'T')))))> _ Action16) / (_ <((('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E')) / (('n' / 'N') ('o' / 'O') ('t' / 'T') __ (('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E'))))> _ Action17))> */
 		func() bool {
 			position112, tokenIndex112 := position, tokenIndex
 			{
@@ -1527,6 +1527,10 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 								goto l121
 							}
 							position++
+							if buffer[position] != rune('>') {
+								goto l121
+							}
+							position++
 							goto l117
 						l121:
 							position, tokenIndex = position117, tokenIndex117
@@ -1542,10 +1546,6 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 										goto l115
 									}
 									position++
-									if buffer[position] != rune('>') {
-										goto l115
-									}
-									position++
 								case '>':
 									if buffer[position] != rune('>') {
 										goto l115
@@ -1613,6 +1613,21 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 								position++
 							}
 						l129:
+							{
+								position157, tokenIndex157 := position, tokenIndex
+								if buffer[position] != rune('e') {
+									goto l158
+								}
+								position++
+								goto l157
+							l158:
+								position, tokenIndex = position157, tokenIndex157
+								if buffer[position] != rune('E') {
+									goto l126
+								}
+								position++
+							}
+						l157:
 							goto l125
 						l126:
 							position, tokenIndex = position125, tokenIndex125
@@ -1646,6 +1661,21 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 								position++
 							}
 						l134:
+							{
+								position151, tokenIndex151 := position, tokenIndex
+								if buffer[position] != rune('e') {
+									goto l152
+								}
+								position++
+								goto l151
+							l152:
+								position, tokenIndex = position151, tokenIndex151
+								if buffer[position] != rune('E') {
+									goto l131
+								}
+								position++
+							}
+						l151:
 							goto l125
 						l131:
 							position, tokenIndex = position125, tokenIndex125
@@ -1761,21 +1791,6 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 										position++
 									}
 								l149:
-									{
-										position151, tokenIndex151 := position, tokenIndex
-										if buffer[position] != rune('e') {
-											goto l152
-										}
-										position++
-										goto l151
-									l152:
-										position, tokenIndex = position151, tokenIndex151
-										if buffer[position] != rune('E') {
-											goto l123
-										}
-										position++
-									}
-								l151:
 									break
 								default:
 									{
@@ -1808,21 +1823,6 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 										position++
 									}
 								l155:
-									{
-										position157, tokenIndex157 := position, tokenIndex
-										if buffer[position] != rune('e') {
-											goto l158
-										}
-										position++
-										goto l157
-									l158:
-										position, tokenIndex = position157, tokenIndex157
-										if buffer[position] != rune('E') {
-											goto l123
-										}
-										position++
-									}
-								l157:
 									break
 								}
 							}
-- 
2.43.0


From 9bc204d42fbb2d59c8a46aae2ee897d153703f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:12 +0000
Subject: [PATCH 08/47] fix: end keywords at a word boundary

Names that merely start with not, null, true or false, such as note or
nullable, were rejected. 'nullor 1=1' was read as 'null or 1=1'. The
generated parser is changed by hand in the same way.
---
 miniquery/miniquery.peg    |  6 +--
 miniquery/miniquery.peg.go | 99 ++++++++++++++++++++++++++++++++++++--
 2 files changed, 99 insertions(+), 6 deletions(-)

diff --git a/miniquery/miniquery.peg b/miniquery/miniquery.peg
index bdfef15..bbcb9fa 100644
--- a/miniquery/miniquery.peg
+++ b/miniquery/miniquery.peg
@@ -30,7 +30,7 @@ Reference     <- IdentifierReference
               / Identifier
 IdentifierReference <- {p.AddMark()} Identifier '.' Identifier ( '.' Identifier)* {p.PopIdentifierReference()}
 JsonReference <- Identifier '->' (JsonReference / Identifier)
-Identifier    <- !"not" <[a-zA-Z]([_a-zA-Z0-9])*> {p.AddName(text)}
+Identifier    <- !("not" ![_a-zA-Z0-9]) <[a-zA-Z]([_a-zA-Z0-9])*> {p.AddName(text)}
 
 # longer operators first, the choice is ordered
 Compare <- _ <( '>=' / '<=' / '==' / '!=' / '<>' / '>' / '<' / '=' )> _ {p.AddCompare(text)}
@@ -49,8 +49,8 @@ Array         <- '[' {p.AddMark()} _ (Literal ( _ ',' _ Literal)* _ ','?)? _ ']'
               /  '(' {p.AddMark()} _ (Literal ( _ ',' _ Literal)* _ ','?)? _ ')' {p.PopArray()}
 Literal       <- String / Integer / Boolean / Null
 Integer       <- <'0' / [1-9][0-9]*> {p.AddInteger(text)}
-Boolean       <- <'true' / 'false' / 'TRUE' / 'FALSE'> {p.AddBoolean(text)}
-Null          <- <'null'/'NULL'> {p.AddNull()}
+Boolean       <- <'true' / 'false' / 'TRUE' / 'FALSE'> ![_a-zA-Z0-9] {p.AddBoolean(text)}
+Null          <- <'null'/'NULL'> ![_a-zA-Z0-9] {p.AddNull()}
 String        <- "'" <[^']*> "'" {p.AddString(text)}/ '"' <[^"]*> '"' {p.AddString(text)}
 
 SpaceComment  <- (Space / Comment)
diff --git a/miniquery/miniquery.peg.go b/miniquery/miniquery.peg.go
index ae93b5a..33f2ad6 100644
--- a/miniquery/miniquery.peg.go
+++ b/miniquery/miniquery.peg.go
@@ -1359,7 +1359,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			position, tokenIndex = position93, tokenIndex93
 			return false
 		},
-		/* 14 Identifier <- <(!(('n' / 'N') ('o' / 'O') ('t' / 'T')) <(([a-z] / [A-Z]) ((&('0' | '1' | '2' | '3' | '4' | '5' | '6' | '7' | '8' | '9') [0-9]) | (&('A' | 'B' | 'C' | 'D' | 'E' | 'F' | 'G' | 'H' | 'I' | 'J' | 'K' | 'L' | 'M' | 'N' | 'O' | 'P' | 'Q' | 'R' | 'S' | 'T' | 'U' | 'V' | 'W' | 'X' | 'Y' | 'Z') [A-Z]) | (&('_') '_') | (&('a' | 'b' | 'c' | 'd' | 'e' | 'f' | 'g' | 'h' | 'i' | 'j' | 'k' | 'l' | 'm' | 'n' | 'o' | 'p' | 'q' | 'r' | 's' | 't' | 'u' | 'v' | 'w' | 'x' | 'y' | 'z') [a-z]))*)> Action14)> */
+		/* 14 Identifier <- <(!(('n' / 'N') ('o' / 'O') ('t' / 'T') !((&('0' | '1' | '2' | '3' | '4' | '5' | '6' | '7' | '8' | '9') [0-9]) | (&('A' | 'B' | 'C' | 'D' | 'E' | 'F' | 'G' | 'H' | 'I' | 'J' | 'K' | 'L' | 'M' | 'N' | 'O' | 'P' | 'Q' | 'R' | 'S' | 'T' | 'U' | 'V' | 'W' | 'X' | 'Y' | 'Z') [A-Z]) | (&('_') '_') | (&('a' | 'b' | 'c' | 'd' | 'e' | 'f' | 'g' | 'h' | 'i' | 'j' | 'k' | 'l' | 'm' | 'n' | 'o' | 'p' | 'q' | 'r' | 's' | 't' | 'u' | 'v' | 'w' | 'x' | 'y' | 'z') [a-z]))) <(([a-z] / [A-Z]) ((&('0' | '1' | '2' | '3' | '4' | '5' | '6' | '7' | '8' | '9') [0-9]) | (&('A' | 'B' | 'C' | 'D' | 'E' | 'F' | 'G' | 'H' | 'I' | 'J' | 'K' | 'L' | 'M' | 'N' | 'O' | 'P' | 'Q' | 'R' | 'S' | 'T' | 'U' | 'V' | 'W' | 'X' | 'Y' | 'Z') [A-Z]) | (&('_') '_') | (&('a' | 'b' | 'c' | 'd' | 'e' | 'f' | 'g' | 'h' | 'i' | 'j' | 'k' | 'l' | 'm' | 'n' | 'o' | 'p' | 'q' | 'r' | 's' | 't' | 'u' | 'v' | 'w' | 'x' | 'y' | 'z') [a-z]))*)> Action14)> */
 		func() bool {
 			position97, tokenIndex97 := position, tokenIndex
 			{
@@ -1411,6 +1411,37 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 						position++
 					}
 				l104:
+					{
+						position295, tokenIndex295 := position, tokenIndex
+						{
+							switch buffer[position] {
+							case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
+								if c := buffer[position]; c < rune('0') || c > rune('9') {
+									goto l295
+								}
+								position++
+							case 'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L', 'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z':
+								if c := buffer[position]; c < rune('A') || c > rune('Z') {
+									goto l295
+								}
+								position++
+							case '_':
+								if buffer[position] != rune('_') {
+									goto l295
+								}
+								position++
+							default:
+								if c := buffer[position]; c < rune('a') || c > rune('z') {
+									goto l295
+								}
+								position++
+							}
+						}
+
+						goto l99
+					l295:
+						position, tokenIndex = position295, tokenIndex295
+					}
 					goto l97
 				l99:
 					position, tokenIndex = position99, tokenIndex99
@@ -2684,7 +2715,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			position, tokenIndex = position236, tokenIndex236
 			return false
 		},
-		/* 22 Boolean <- <(<((&('F') ('F' 'A' 'L' 'S' 'E')) | (&('T') ('T' 'R' 'U' 'E')) | (&('f') ('f' 'a' 'l' 's' 'e')) | (&('t') ('t' 'r' 'u' 'e')))> Action26)> */
+		/* 22 Boolean <- <(<((&('F') ('F' 'A' 'L' 'S' 'E')) | (&('T') ('T' 'R' 'U' 'E')) | (&('f') ('f' 'a' 'l' 's' 'e')) | (&('t') ('t' 'r' 'u' 'e')))> !((&('0' | '1' | '2' | '3' | '4' | '5' | '6' | '7' | '8' | '9') [0-9]) | (&('A' | 'B' | 'C' | 'D' | 'E' | 'F' | 'G' | 'H' | 'I' | 'J' | 'K' | 'L' | 'M' | 'N' | 'O' | 'P' | 'Q' | 'R' | 'S' | 'T' | 'U' | 'V' | 'W' | 'X' | 'Y' | 'Z') [A-Z]) | (&('_') '_') | (&('a' | 'b' | 'c' | 'd' | 'e' | 'f' | 'g' | 'h' | 'i' | 'j' | 'k' | 'l' | 'm' | 'n' | 'o' | 'p' | 'q' | 'r' | 's' | 't' | 'u' | 'v' | 'w' | 'x' | 'y' | 'z') [a-z])) Action26)> */
 		func() bool {
 			position243, tokenIndex243 := position, tokenIndex
 			{
@@ -2774,6 +2805,37 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 
 					add(rulePegText, position245)
 				}
+				{
+					position296, tokenIndex296 := position, tokenIndex
+					{
+						switch buffer[position] {
+						case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
+							if c := buffer[position]; c < rune('0') || c > rune('9') {
+								goto l296
+							}
+							position++
+						case 'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L', 'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z':
+							if c := buffer[position]; c < rune('A') || c > rune('Z') {
+								goto l296
+							}
+							position++
+						case '_':
+							if buffer[position] != rune('_') {
+								goto l296
+							}
+							position++
+						default:
+							if c := buffer[position]; c < rune('a') || c > rune('z') {
+								goto l296
+							}
+							position++
+						}
+					}
+
+					goto l243
+				l296:
+					position, tokenIndex = position296, tokenIndex296
+				}
 				if !_rules[ruleAction26]() {
 					goto l243
 				}
@@ -2784,7 +2846,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			position, tokenIndex = position243, tokenIndex243
 			return false
 		},
-		/* 23 Null <- <(<(('n' 'u' 'l' 'l') / ('N' 'U' 'L' 'L'))> Action27)> */
+		/* 23 Null <- <(<(('n' 'u' 'l' 'l') / ('N' 'U' 'L' 'L'))> !((&('0' | '1' | '2' | '3' | '4' | '5' | '6' | '7' | '8' | '9') [0-9]) | (&('A' | 'B' | 'C' | 'D' | 'E' | 'F' | 'G' | 'H' | 'I' | 'J' | 'K' | 'L' | 'M' | 'N' | 'O' | 'P' | 'Q' | 'R' | 'S' | 'T' | 'U' | 'V' | 'W' | 'X' | 'Y' | 'Z') [A-Z]) | (&('_') '_') | (&('a' | 'b' | 'c' | 'd' | 'e' | 'f' | 'g' | 'h' | 'i' | 'j' | 'k' | 'l' | 'm' | 'n' | 'o' | 'p' | 'q' | 'r' | 's' | 't' | 'u' | 'v' | 'w' | 'x' | 'y' | 'z') [a-z])) Action27)> */
 		func() bool {
 			position247, tokenIndex247 := position, tokenIndex
 			{
@@ -2832,6 +2894,37 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 				l250:
 					add(rulePegText, position249)
 				}
+				{
+					position297, tokenIndex297 := position, tokenIndex
+					{
+						switch buffer[position] {
+						case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
+							if c := buffer[position]; c < rune('0') || c > rune('9') {
+								goto l297
+							}
+							position++
+						case 'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L', 'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z':
+							if c := buffer[position]; c < rune('A') || c > rune('Z') {
+								goto l297
+							}
+							position++
+						case '_':
+							if buffer[position] != rune('_') {
+								goto l297
+							}
+							position++
+						default:
+							if c := buffer[position]; c < rune('a') || c > rune('z') {
+								goto l297
+							}
+							position++
+						}
+					}
+
+					goto l247
+				l297:
+					position, tokenIndex = position297, tokenIndex297
+				}
 				if !_rules[ruleAction27]() {
 					goto l247
 				}
-- 
2.43.0


From dc264b911ec25a232d9a39e5205e6ca28b0036ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:55 +0000
Subject: [PATCH 09/47] fix: let Visitor.Init fill in the default callbacks

Init worked on a copy, so visiting with a callback left out crashed.
Function expressions were also sent to the between callback.
---
 miniquery/visitor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/miniquery/visitor.go b/miniquery/visitor.go
index 3373fa1..0966004 100644
--- a/miniquery/visitor.go
+++ b/miniquery/visitor.go
@@ -23,7 +23,7 @@ type (
 	}
 )
 
-func (v Visitor) Init() {
+func (v *Visitor) Init() {
 	noop := func(ctx context.Context, node *Node) (err error) {
 		return
 	}
@@ -129,7 +129,7 @@ func (v Visitor) Visit(ctx context.Context, n *Node) error {
 	case BetweenExpressionType:
 		return v.BetweenExpression(ctx, n)
 	case FunctionExpressionType:
-		return v.BetweenExpression(ctx, n)
+		return v.FunctionExpression(ctx, n)
 	}
 	return errors.Errorf("invalid type %q", n.Type)
 }
-- 
2.43.0


From 98ba168c0fdf36e2fa89ad17470585c6f216bcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:56 +0000
Subject: [PATCH 10/47] fix: let Visitor visit references

Visiting a tree with a name like a.b ended in an invalid type error.
---
 miniquery/visitor.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/miniquery/visitor.go b/miniquery/visitor.go
index 0966004..3867820 100644
--- a/miniquery/visitor.go
+++ b/miniquery/visitor.go
@@ -18,6 +18,7 @@ type (
 		ParenthesesExpression VisitFunc
 		NotExpression         VisitFunc
 		IdentifierNode        VisitFunc
+		ReferenceNode         VisitFunc
 		OperationNode         VisitFunc
 		ValueNode             VisitFunc
 	}
@@ -33,6 +34,9 @@ func (v *Visitor) Init() {
 	if v.IdentifierNode == nil {
 		v.IdentifierNode = noop
 	}
+	if v.ReferenceNode == nil {
+		v.ReferenceNode = noop
+	}
 	if v.ParenthesesExpression == nil {
 		v.ParenthesesExpression = func(ctx context.Context, node *Node) error {
 			return v.Visit(ctx, node.Expression)
@@ -116,6 +120,8 @@ func (v Visitor) Visit(ctx context.Context, n *Node) error {
 		return v.OperationNode(ctx, n)
 	case IdentifierNodeType:
 		return v.IdentifierNode(ctx, n)
+	case ReferenceNodeType:
+		return v.ReferenceNode(ctx, n)
 	case ParenthesesExpressionType:
 		return v.ParenthesesExpression(ctx, n)
 	case CompareExpressionType:
-- 
2.43.0


From e6b91f2f950d3a952603d97fee3f5d44e476f742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:29 +0000
Subject: [PATCH 11/47] fix: keep not when building entql

The error check was inverted, so 'not a=1' was built as 'a=1'.
---
 entmq/entql.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/entmq/entql.go b/entmq/entql.go
index 7f08713..e32981f 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -86,8 +86,12 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 		err = visit(node.Expression)
 	case miniquery.NotExpressionType:
 		err = visit(node.Expression)
-		if err != nil {
-			mb.push(entql.Not(mb.pop().(entql.P)))
+		if err == nil {
+			p, ok := mb.pop().(entql.P)
+			if !ok {
+				return errors.Errorf("not a predicate: %q", node.Expression)
+			}
+			mb.push(entql.Not(p))
 		}
 	case miniquery.FunctionExpressionType:
 		// err = qb.visitFunction(node)
-- 
2.43.0


From e88c6c132199415d3864a6c7230c7357937739f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:30 +0000
Subject: [PATCH 12/47] fix: reject functions in entql

A query that was only a function call built no predicate and no error,
so the filter was lost. Inside a comparison it crashed.
---
 entmq/entql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/entmq/entql.go b/entmq/entql.go
index e32981f..53e7c44 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -95,7 +95,7 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 		}
 	case miniquery.FunctionExpressionType:
 		// err = qb.visitFunction(node)
-
+		err = errors.Errorf("unsupported function: %q", node.Name)
 	case miniquery.BetweenExpressionType:
 		err = visit(node.Left)
 		if err == nil {
-- 
2.43.0


From 597163a34bf217963496088486985b9729c5df21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:31 +0000
Subject: [PATCH 13/47] fix: support null predicates in entql

'a is null' crashed. The other is predicates are now an error.
---
 entmq/entql.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/entmq/entql.go b/entmq/entql.go
index 53e7c44..09df409 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -129,7 +129,20 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 
 		}
 	case miniquery.PredicatesExpressionType:
-		panic("TODO")
+		err = visit(node.Left)
+		if err == nil {
+			field, ok := mb.pop().(*entql.Field)
+			switch {
+			case !ok:
+				err = errors.Errorf("not a field: %q", node.Left)
+			case node.Op.Operation == miniquery.OpIsNull:
+				mb.push(entql.FieldNil(field.Name))
+			case node.Op.Operation == miniquery.OpIsNotNull:
+				mb.push(entql.FieldNotNil(field.Name))
+			default:
+				err = errors.Errorf("unexpected predicate op %q", node.Op.Operation)
+			}
+		}
 	case miniquery.LogicExpressionType:
 		fallthrough
 	case miniquery.CompareExpressionType:
-- 
2.43.0


From f91c28b8942f2f0c0d70b7c88593b61a6d73a0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:32 +0000
Subject: [PATCH 14/47] fix: reject a bare operand in entql instead of crashing

---
 entmq/entql.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/entmq/entql.go b/entmq/entql.go
index 09df409..4d6b521 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -54,7 +54,10 @@ func (mb *MiniQLToEntQLBuilder) Build() (p entql.P, err error) {
 	}
 	err = mb.visit(node)
 	if err == nil && len(mb.stack) > 0 {
-		p = mb.pop().(entql.P)
+		var ok bool
+		if p, ok = mb.pop().(entql.P); !ok {
+			return nil, errors.Errorf("not a predicate: %q", mb.Query)
+		}
 		if len(mb.stack) > 1 {
 			slog.With("query", mb.Query).Error("unexpected MiniQLBuilder stack size", "size", len(mb.stack))
 		}
-- 
2.43.0


From 811496e665a4866adacbcf86f4002f8b2b8a964f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:32 +0000
Subject: [PATCH 15/47] fix: skip empty queries in ApplyEntQL

An empty query builds a nil predicate, and ent crashes on that.
---
 entmq/entql.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/entmq/entql.go b/entmq/entql.go
index 4d6b521..2f0a9ae 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -15,6 +15,9 @@ func ApplyEntQL(q interface{ Where(p entql.P) }, queries []string) error {
 		if err != nil {
 			return errors.Wrapf(err, "failed to apply query: %q", v)
 		}
+		if p == nil {
+			continue
+		}
 		q.Where(p)
 	}
 	return nil
-- 
2.43.0


From f9ab53480d6a569688abccdae866fc494b427ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:51:11 +0000
Subject: [PATCH 16/47] fix: require exactly one argument for date in entsql

date() crashed and date(a,b) ignored b.
---
 entmq/entsql.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 3f1c888..fb7f292 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -90,6 +90,10 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		case "date":
 			// 截取为日期
 			// date(xxx)
+			if len(node.Params) != 1 {
+				err = errors.New("date expects one argument")
+				break
+			}
 			s.WriteString("DATE(")
 			err = mb.visit(node.Params[0])
 			s.WriteString(")")
-- 
2.43.0


From 338551d4dfc2f96de62d40f3bb732fc8f539723d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:51:11 +0000
Subject: [PATCH 17/47] fix: reject has_edge without a node instead of crashing

---
 entmq/entsql.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index fb7f292..f9347cc 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -106,6 +106,10 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 			}
 
 			tab := mb.Node
+			if tab == nil {
+				err = errors.New("has_edge requires Node")
+				break
+			}
 			builder := sql.Dialect(mb.Dialect()).Select().From(sql.Table(tab.Table).Schema(tab.Schema))
 			edge, ok := tab.Edges[params[0].Name]
 			if !ok {
-- 
2.43.0


From 067fc0e5c177e34b7a32522f06f3b50fb365eed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:51:12 +0000
Subject: [PATCH 18/47] fix: report errors in nested has_edge conditions

A bad condition was dropped when ent wrapped the sub query, and the
remaining SQL was returned without an error. has_edge also ignored
SQLBuilder.
---
 entmq/entsql.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index f9347cc..c3f8101 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -110,7 +110,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				err = errors.New("has_edge requires Node")
 				break
 			}
-			builder := sql.Dialect(mb.Dialect()).Select().From(sql.Table(tab.Table).Schema(tab.Schema))
+			builder := sql.Dialect(s.Dialect()).Select().From(sql.Table(tab.Table).Schema(tab.Schema))
 			edge, ok := tab.Edges[params[0].Name]
 			if !ok {
 				err = errors.Errorf("不存在关联: %q", params[0].Name)
@@ -140,9 +140,9 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 							DisableTypeCasting: mb.DisableTypeCasting,
 						}
 						builder.Join(mb)
-						err := mb.Err()
-						if err != nil {
-							builder.AddError(err)
+						// errors added to builder are lost when ent wraps the predicate
+						if mb.Err() != nil {
+							err = mb.Err()
 						}
 					}))
 				})
@@ -155,8 +155,10 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				rf := rv.FieldByName("where")
 				rf = reflect.NewAt(rf.Type(), unsafe.Pointer(rf.UnsafeAddr())).Elem()
 				p := rf.Interface().(*sql.Predicate)
-				err = p.Err()
-				mb.Join(p)
+				s.Join(p)
+				if err == nil {
+					err = p.Err()
+				}
 			}
 		default:
 			err = errors.Errorf("不支持的函数: %q", node.Name)
-- 
2.43.0


From 53dfc3b72d7e666631ac0741461854cda026be01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:51:12 +0000
Subject: [PATCH 19/47] fix: apply not to the whole between in entsql

'not a between 1 and 2' was built as 'NOT a >= 1 AND a <= 2'.
---
 entmq/entsql.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index c3f8101..911168d 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -83,7 +83,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		s.WriteString(")")
 	case miniquery.NotExpressionType:
 		s.WriteString("NOT ")
-		err = visit(node.Expression)
+		err = mb.visitOperand(node.Expression)
 	case miniquery.FunctionExpressionType:
 		// err = qb.visitFunction(node)
 		switch node.Name {
@@ -191,7 +191,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		if !found {
 			return errors.Errorf("unexpected predicate op %q", node.Op.Operation)
 		}
-		err = visit(node.Left)
+		err = mb.visitOperand(node.Left)
 		s.WriteOp(op)
 	case miniquery.LogicExpressionType:
 		fallthrough
@@ -223,6 +223,14 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 	return err
 }
 
+// visitOperand wraps between, which is built with an AND
+func (mb *MiniQLToEntSQLBuilder) visitOperand(node *miniquery.Node) error {
+	if node.Type == miniquery.BetweenExpressionType {
+		node = &miniquery.Node{Type: miniquery.ParenthesesExpressionType, Expression: node}
+	}
+	return mb.visit(node)
+}
+
 var entsqlOpMap = map[miniquery.OpType]sql.Op{
 	miniquery.OpEQ:        sql.OpEQ,
 	miniquery.OpNEQ:       sql.OpNEQ,
-- 
2.43.0


From 5a476443e446bede5382d2f2292ce0a359a79af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:51:13 +0000
Subject: [PATCH 20/47] fix: wrap or in entsql

ent joins predicates with AND and does not wrap them. A query like
'a=1 or b=2' escaped the other predicates of a selector, and the
correlation of has_edge.
---
 entmq/entsql.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 911168d..7b4bcde 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -33,7 +33,12 @@ func (mb *MiniQLToEntSQLBuilder) Query() (string, []interface{}) {
 		}
 		mb.ast = ast
 	}
-	err := mb.visit(mb.ast)
+	ast := mb.ast
+	if ast.Type == miniquery.LogicExpressionType && ast.Op.Operation == miniquery.OpOr {
+		// the result is joined with other predicates by AND
+		ast = &miniquery.Node{Type: miniquery.ParenthesesExpressionType, Expression: ast}
+	}
+	err := mb.visit(ast)
 	if err != nil {
 		mb.AddError(err)
 		return "", nil
-- 
2.43.0


From f644ed50dfcdd2f09085a0200aa8807bd956157c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:51:14 +0000
Subject: [PATCH 21/47] fix: let entsql Query be called more than once

The second call appended to the result of the first.
---
 entmq/entsql.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 7b4bcde..d8b00f2 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -38,12 +38,16 @@ func (mb *MiniQLToEntSQLBuilder) Query() (string, []interface{}) {
 		// the result is joined with other predicates by AND
 		ast = &miniquery.Node{Type: miniquery.ParenthesesExpressionType, Expression: ast}
 	}
+	// restore, so that Query can be called again
+	builder := mb.Builder
 	err := mb.visit(ast)
+	query, args := mb.Builder.Query()
+	mb.Builder = builder
 	if err != nil {
 		mb.AddError(err)
 		return "", nil
 	}
-	return mb.Builder.Query()
+	return query, args
 }
 
 //nolint:golint,gocyclo
-- 
2.43.0


From 2e21317486cfd9fa8db4d31abcb6718dbf73ce51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:51:15 +0000
Subject: [PATCH 22/47] fix: leave lower case column names alone in entsql

s3key was changed to s_3key.
---
 entmq/entsql.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index d8b00f2..4e48cb1 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -75,7 +75,11 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		}
 	case miniquery.IdentifierNodeType:
 		// fixme 检测字段是否存在
-		s.Ident(xstrings.ToSnakeCase(node.Name))
+		name := node.Name
+		if name != strings.ToLower(name) {
+			name = xstrings.ToSnakeCase(name)
+		}
+		s.Ident(name)
 		/*
 			switch name {
 			case "owned":
-- 
2.43.0


From 9942ab6f69bfcfc75ed233f1ed45825d25be04d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:51:15 +0000
Subject: [PATCH 23/47] fix: return a valid driver value for cast parameters

database/sql rejects int from Valuer.
---
 entmq/entsql_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/entmq/entsql_util.go b/entmq/entsql_util.go
index adbb34c..8b247f6 100644
--- a/entmq/entsql_util.go
+++ b/entmq/entsql_util.go
@@ -38,5 +38,5 @@ func (f typeCastParamFormatter) FormatParam(placeholder string, info *sql.StmtIn
 }
 
 func (f typeCastParamFormatter) Value() (driver.Value, error) {
-	return f.v, nil
+	return driver.DefaultParameterConverter.ConvertValue(f.v)
 }
-- 
2.43.0


From ed5e0881dabadcf7d7280771b82bc0c509d22332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:43 +0000
Subject: [PATCH 24/47] fix: correlate nested has_edge with the table it is
 nested in

ent gives the table of a sub query an alias for many to many edges and
for edges within one table. The nested condition referred to the table
without the alias, which is the one of the outer query.
---
 entmq/entsql.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 4e48cb1..26b98ae 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -19,6 +19,7 @@ type MiniQLToEntSQLBuilder struct {
 	ast         *miniquery.Node
 	SQLBuilder  *sql.Builder
 	Graph       *sqlgraph.Schema
+	table       *sql.SelectTable // the table of Node in a sub query, may have an alias
 	sql.Builder
 	DisableTypeCasting bool
 }
@@ -123,7 +124,11 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				err = errors.New("has_edge requires Node")
 				break
 			}
-			builder := sql.Dialect(s.Dialect()).Select().From(sql.Table(tab.Table).Schema(tab.Schema))
+			table := mb.table
+			if table == nil {
+				table = sql.Table(tab.Table).Schema(tab.Schema)
+			}
+			builder := sql.Dialect(s.Dialect()).Select().From(table)
 			edge, ok := tab.Edges[params[0].Name]
 			if !ok {
 				err = errors.Errorf("不存在关联: %q", params[0].Name)
@@ -131,6 +136,15 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 			}
 			switch len(params) {
 			case 1:
+				if mb.table != nil && tab.Table == edge.Spec.Table {
+					// HasNeighbors does not avoid the alias of a sub query
+					sqlgraph.HasNeighborsWith(builder, sqlgraph.NewStep(
+						sqlgraph.From(tab.Table, tab.ID.Column),
+						sqlgraph.To(edge.To.Table, edge.To.ID.Column),
+						sqlgraph.Edge(edge.Spec.Rel, edge.Spec.Inverse, edge.Spec.Table, edge.Spec.Columns...),
+					), func(*sql.Selector) {})
+					break
+				}
 				sqlgraph.HasNeighbors(builder, sqlgraph.NewStep(
 					sqlgraph.From(tab.Table, tab.ID.Column),
 					sqlgraph.To(edge.To.Table, edge.To.ID.Column),
@@ -150,6 +164,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 						mb := &MiniQLToEntSQLBuilder{
 							ast:                params[1],
 							Node:               edge.To,
+							table:              selector.Table(),
 							DisableTypeCasting: mb.DisableTypeCasting,
 						}
 						builder.Join(mb)
-- 
2.43.0


From e8cd8e3372c1eda2f546bc98e698eaa486955cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:44 +0000
Subject: [PATCH 25/47] fix: separate function arguments in gorm

date(a,b) was built as date(`a``b`).
---
 gormq/miniquery.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 278a07f..82d87de 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -213,7 +213,10 @@ func (qb *queryBuilder) visitFunction(node *miniquery.Node) (err error) {
 	case "date":
 		buf.WriteString(node.Name)
 		buf.WriteString("(")
-		for _, v := range node.Params {
+		for i, v := range node.Params {
+			if i > 0 {
+				buf.WriteString(", ")
+			}
 			if err = visit(v); err != nil {
 				return
 			}
-- 
2.43.0


From 4d5cfbfbaec46e82d1af3923ab0ace03593c3fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:45 +0000
Subject: [PATCH 26/47] fix: reject fields without a column in gorm

A relation or an ignored field was built as an empty column name.
---
 gormq/miniquery.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 82d87de..b52fa7f 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -232,11 +232,11 @@ func getDBName(st *schema.Schema, name string) (string, bool) {
 	if _, ok := st.FieldsByDBName[name]; ok {
 		return name, true
 	}
-	if f, ok := st.FieldsByName[name]; ok {
+	if f, ok := st.FieldsByName[name]; ok && f.DBName != "" {
 		return f.DBName, true
 	}
 	for _, f := range st.Fields {
-		if strings.EqualFold(f.Name, name) {
+		if f.DBName != "" && strings.EqualFold(f.Name, name) {
 			return f.DBName, true
 		}
 	}
-- 
2.43.0


From 4049e00d08aeb4c66df898ac912e849549151120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:46 +0000
Subject: [PATCH 27/47] fix: require every query of a MiniQuery to be valid by
 itself

The queries are wrapped and joined before parsing. Unbalanced ones like
'1=1) or (1=1' could escape from the and.
---
 gormq/miniquery.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index b52fa7f..8d01594 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -16,6 +16,16 @@ type MiniQuery struct {
 }
 
 func (q MiniQuery) Scope(db *gorm.DB) *gorm.DB {
+	for _, v := range q.Query {
+		if strings.TrimSpace(v) == "" {
+			continue
+		}
+		// 'a) or (b' is valid only after Join
+		if _, err := miniquery.Parse(v); err != nil {
+			_ = db.AddError(fmt.Errorf("invalid query syntax: %v", err))
+			return db
+		}
+	}
 	return WireMiniQuery(db, miniquery.Join(q.Query))
 }
 
-- 
2.43.0


From a37036e1da97d42ef1e9447a7d6c30d300e5a93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:48 +0000
Subject: [PATCH 28/47] fix: qualify columns in gorm when a relation is joined

'name="a" and Profile.age=18' failed with an ambiguous column when the
related table has a column with the same name.
---
 gormq/miniquery.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 8d01594..b72c588 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -68,6 +68,8 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 	var vals []interface{}
 	buf := &strings.Builder{}
 	joined := map[string][]string{}
+	// a column may exist in a joined table as well
+	qualify := len(db.Statement.Joins) > 0 || hasReference(ast)
 	quote := func(builder *strings.Builder, name string) {
 		db.QuoteTo(builder, name)
 	}
@@ -81,6 +83,9 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 			if !ok {
 				return s, fmt.Errorf("field not found: %q", s)
 			}
+			if qualify {
+				n = db.Statement.Table + "." + n
+			}
 			return n, nil
 		},
 		join: func(s string, fieldName string) (string, error) {
@@ -253,6 +258,21 @@ func getDBName(st *schema.Schema, name string) (string, bool) {
 	return name, false
 }
 
+func hasReference(node *miniquery.Node) bool {
+	if node == nil {
+		return false
+	}
+	if node.Type == miniquery.ReferenceNodeType || hasReference(node.Expression) || hasReference(node.Left) || hasReference(node.Right) {
+		return true
+	}
+	for _, v := range node.Params {
+		if hasReference(v) {
+			return true
+		}
+	}
+	return false
+}
+
 func normalizeSQL(s string) string {
 	if v, ok := normalize[s]; ok {
 		return v
-- 
2.43.0


From bacdcd91a25c3676fc6b8048f51dcce298942b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:53:20 +0000
Subject: [PATCH 29/47] fix: keep a shared gorm session usable after a bad
 query

WireMiniQuery set its error and the parsed schema on the handle it was
given. One bad query made every later query of that session fail.
---
 gormq/miniquery.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index b72c588..9bbb98d 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -22,8 +22,7 @@ func (q MiniQuery) Scope(db *gorm.DB) *gorm.DB {
 		}
 		// 'a) or (b' is valid only after Join
 		if _, err := miniquery.Parse(v); err != nil {
-			_ = db.AddError(fmt.Errorf("invalid query syntax: %v", err))
-			return db
+			return WireMiniQuery(db, v)
 		}
 	}
 	return WireMiniQuery(db, miniquery.Join(q.Query))
@@ -54,6 +53,8 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 	if query == "" {
 		return db
 	}
+	// db may be a session shared by others, continue with its own instance
+	db = db.Scopes()
 	ast, err := miniquery.Parse(query)
 	if err != nil {
 		_ = db.AddError(fmt.Errorf("invalid query syntax: %v", err))
-- 
2.43.0


From 8acd31afb3bbc9f6e3e3f61dbd8b46c10903fa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:09 +0000
Subject: [PATCH 30/47] fix: group conditions used as an operand

'a = b is null' is read as 'a = (b is null)', but the SQL was built
without parentheses and the database read it as '(a = b) is null'.
---
 entmq/entsql.go    |  8 ++++++--
 gormq/miniquery.go | 12 ++++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 26b98ae..3104827 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -224,6 +224,9 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 	case miniquery.LogicExpressionType:
 		fallthrough
 	case miniquery.CompareExpressionType:
+		if node.Type == miniquery.CompareExpressionType {
+			visit = mb.visitOperand
+		}
 		err = visit(node.Left)
 		op, found := entsqlOpMap[node.Op.Operation]
 		if !found {
@@ -251,9 +254,10 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 	return err
 }
 
-// visitOperand wraps between, which is built with an AND
+// visitOperand wraps a condition used as an operand, the precedence in SQL is not the same
 func (mb *MiniQLToEntSQLBuilder) visitOperand(node *miniquery.Node) error {
-	if node.Type == miniquery.BetweenExpressionType {
+	switch node.Type {
+	case miniquery.CompareExpressionType, miniquery.BetweenExpressionType, miniquery.PredicatesExpressionType:
 		node = &miniquery.Node{Type: miniquery.ParenthesesExpressionType, Expression: node}
 	}
 	return mb.visit(node)
diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 9bbb98d..755d320 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -207,6 +207,9 @@ func (qb *queryBuilder) visit(node *miniquery.Node) (err error) {
 	case miniquery.LogicExpressionType:
 		fallthrough
 	case miniquery.CompareExpressionType:
+		if node.Type != miniquery.LogicExpressionType {
+			visit = qb.visitOperand
+		}
 		err = visit(node.Left)
 		if err == nil {
 			buf.WriteRune(' ')
@@ -222,6 +225,15 @@ func (qb *queryBuilder) visit(node *miniquery.Node) (err error) {
 	return err
 }
 
+// visitOperand wraps a condition used as an operand, the precedence in SQL is not the same
+func (qb *queryBuilder) visitOperand(node *miniquery.Node) error {
+	switch node.Type {
+	case miniquery.CompareExpressionType, miniquery.BetweenExpressionType, miniquery.PredicatesExpressionType:
+		node = &miniquery.Node{Type: miniquery.ParenthesesExpressionType, Expression: node}
+	}
+	return qb.visit(node)
+}
+
 func (qb *queryBuilder) visitFunction(node *miniquery.Node) (err error) {
 	buf := qb.buf
 	visit := qb.visit
-- 
2.43.0


From 0af4533d6c3cdfecd516590676576d2bce3a389e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:59 +0000
Subject: [PATCH 31/47] fix: join a relation once when several gorm filters use
 it

Two filters with columns of the same relation joined it twice, and the
database refused the query because every column was ambiguous.
---
 gormq/miniquery.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 755d320..0629b28 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -100,7 +100,7 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 			if name, ok = getDBName(r.FieldSchema, fieldName); !ok {
 				return "", fmt.Errorf("relation field not found: %q.%q", s, fieldName)
 			}
-			if _, ok := joined[s]; !ok {
+			if _, ok := joined[s]; !ok && !isJoined(db, s) {
 				db = db.Joins(s)
 			}
 			joined[s] = append(joined[s], name)
@@ -271,6 +271,15 @@ func getDBName(st *schema.Schema, name string) (string, bool) {
 	return name, false
 }
 
+func isJoined(db *gorm.DB, relation string) bool {
+	for _, v := range db.Statement.Joins {
+		if v.Name == relation {
+			return true
+		}
+	}
+	return false
+}
+
 func hasReference(node *miniquery.Node) bool {
 	if node == nil {
 		return false
-- 
2.43.0


From 16f1cdfe9fd2262660d66d43be3cb7a2668c361f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:41 +0000
Subject: [PATCH 32/47] fix: qualify gorm columns when the relation is joined
 by a later filter

Whether a column needs its table was decided when the filter was applied.
'name="a"' followed by a second filter 'Profile.age=18' still failed with
an ambiguous column. Columns are now written when the statement is built.
---
 gormq/miniquery.go | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 0629b28..68b4282 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -7,6 +7,7 @@ import (
 	"github.com/pkg/errors"
 	"github.com/wenerme/go-miniquery/miniquery"
 	"gorm.io/gorm"
+	"gorm.io/gorm/clause"
 	"gorm.io/gorm/schema"
 )
 
@@ -69,8 +70,6 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 	var vals []interface{}
 	buf := &strings.Builder{}
 	joined := map[string][]string{}
-	// a column may exist in a joined table as well
-	qualify := len(db.Statement.Joins) > 0 || hasReference(ast)
 	quote := func(builder *strings.Builder, name string) {
 		db.QuoteTo(builder, name)
 	}
@@ -84,9 +83,6 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 			if !ok {
 				return s, fmt.Errorf("field not found: %q", s)
 			}
-			if qualify {
-				n = db.Statement.Table + "." + n
-			}
 			return n, nil
 		},
 		join: func(s string, fieldName string) (string, error) {
@@ -144,7 +140,6 @@ func (qb *queryBuilder) visitReference(node *miniquery.Node) (err error) {
 func (qb *queryBuilder) visitIdentifier(node *miniquery.Node) (err error) {
 	buf := qb.buf
 	mapName := qb.mapName
-	quote := qb.quote
 	name := node.Name
 	/* extension to support custom virtual column */
 	// switch name {
@@ -159,7 +154,8 @@ func (qb *queryBuilder) visitIdentifier(node *miniquery.Node) (err error) {
 	if err != nil {
 		return err
 	}
-	quote(buf, name)
+	buf.WriteRune('?')
+	qb.addValue(ownColumn(name))
 	return
 }
 
@@ -280,19 +276,16 @@ func isJoined(db *gorm.DB, relation string) bool {
 	return false
 }
 
-func hasReference(node *miniquery.Node) bool {
-	if node == nil {
-		return false
-	}
-	if node.Type == miniquery.ReferenceNodeType || hasReference(node.Expression) || hasReference(node.Left) || hasReference(node.Right) {
-		return true
-	}
-	for _, v := range node.Params {
-		if hasReference(v) {
-			return true
-		}
+// ownColumn is written when the statement is complete: a column may exist in
+// a table joined later as well
+type ownColumn string
+
+func (c ownColumn) Build(builder clause.Builder) {
+	if stmt, ok := builder.(*gorm.Statement); ok && len(stmt.Joins) > 0 {
+		builder.WriteQuoted(stmt.Table + "." + string(c))
+		return
 	}
-	return false
+	builder.WriteQuoted(string(c))
 }
 
 func normalizeSQL(s string) string {
-- 
2.43.0


From e93a2b19b715a207f558b01f467b6a1669658283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:47 +0000
Subject: [PATCH 33/47] fix: qualify columns inside has_edge

Columns of an edge condition were written without their table. A column
missing in the related table was taken from the outer table, and a column
that the join table has as well was refused as ambiguous.
---
 entmq/entsql.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 3104827..3c6ca14 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -80,6 +80,10 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		if name != strings.ToLower(name) {
 			name = xstrings.ToSnakeCase(name)
 		}
+		if mb.table != nil {
+			// the column of the edge, not one of the outer or the join table
+			name = mb.table.C(name)
+		}
 		s.Ident(name)
 		/*
 			switch name {
-- 
2.43.0


From 3b4fa7c667d9f893e10202c7b71699ebd776879a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:47 +0000
Subject: [PATCH 34/47] fix: cast integers to bigint for postgres

An int literal has 64 bits, the type int of postgres 32. Comparing with
3000000000 failed.
---
 entmq/entsql_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/entmq/entsql_util.go b/entmq/entsql_util.go
index 8b247f6..f2ae8c2 100644
--- a/entmq/entsql_util.go
+++ b/entmq/entsql_util.go
@@ -21,7 +21,7 @@ func (f typeCastParamFormatter) FormatParam(placeholder string, info *sql.StmtIn
 		var typ string
 		switch f.v.(type) {
 		case int:
-			typ = "int"
+			typ = "bigint"
 		// 字符串不 cast - 处理时间和字符串比较的场景
 		// case string:
 		//	typ = "text"
-- 
2.43.0


From 82a982c4e90cec8d238959e20b7a8cddf6e9a88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:00 +0000
Subject: [PATCH 35/47] fix: refuse entql logic operands that are no conditions

ent panics when a field or a value other than a predicate is an operand of
and, or. Report an error when the predicate is built.
---
 entmq/entql.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/entmq/entql.go b/entmq/entql.go
index 2f0a9ae..4a4c2a7 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -163,6 +163,9 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 			if !found {
 				return errors.Errorf("unexpected op %q", node.Op.Operation)
 			}
+			if node.Type == miniquery.LogicExpressionType && !(isCondition(left) && isCondition(right)) {
+				return errors.Errorf("not a condition: %q", node)
+			}
 			mb.push(&entql.BinaryExpr{
 				Op: op,
 				X:  left,
@@ -175,6 +178,16 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 	return err
 }
 
+// isCondition reports whether e can be an operand of and, or: ent panics on fields and values there
+func isCondition(e entql.Expr) bool {
+	if v, ok := e.(*entql.Value); ok {
+		_, ok = v.V.(bool)
+		return ok
+	}
+	_, ok := e.(entql.P)
+	return ok
+}
+
 var entqlOpMap = map[miniquery.OpType]entql.Op{
 	miniquery.OpAnd:   entql.OpAnd,
 	miniquery.OpOr:    entql.OpOr,
-- 
2.43.0


From 1ede7f303c288ec3ee94f2796b590482c358092a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:50 +0000
Subject: [PATCH 36/47] fix: gorm filter refuses relations to many rows

A dotted name over a has many or many to many relation was joined like a
relation to one row. Find then panicked inside gorm, and Count counted a row
once per related row. Such names are an error now.
---
 gormq/miniquery.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 68b4282..42107bd 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -90,6 +90,9 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 			if r == nil {
 				return "", fmt.Errorf("relation not found: %q", s)
 			}
+			if !isToOne(r) {
+				return "", fmt.Errorf("relation to many rows: %q", s)
+			}
 
 			var name string
 			var ok bool
@@ -267,6 +270,11 @@ func getDBName(st *schema.Schema, name string) (string, bool) {
 	return name, false
 }
 
+// isToOne reports whether there is at most one related row, gorm can not join others
+func isToOne(r *schema.Relationship) bool {
+	return r.Type == schema.BelongsTo || r.Type == schema.HasOne
+}
+
 func isJoined(db *gorm.DB, relation string) bool {
 	for _, v := range db.Statement.Joins {
 		if v.Name == relation {
-- 
2.43.0


From 8de761c5cf3aa71f05cad807bc6d9ac982730e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:36 +0000
Subject: [PATCH 37/47] fix: a gorm MiniQuery with a single blank entry is no
 filter

Blank entries of a list are left out, but a list of one blank entry was
parsed and refused.
---
 gormq/miniquery.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 42107bd..069e8eb 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -17,6 +17,10 @@ type MiniQuery struct {
 }
 
 func (q MiniQuery) Scope(db *gorm.DB) *gorm.DB {
+	if strings.TrimSpace(strings.Join(q.Query, "")) == "" {
+		// Join returns a single blank entry as it is
+		return db
+	}
 	for _, v := range q.Query {
 		if strings.TrimSpace(v) == "" {
 			continue
-- 
2.43.0


From eebf04a282393534e9b34999baec1a8cf10e3c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:35:18 +0000
Subject: [PATCH 38/47] fix: gorm filter with not in an empty list selected no
 rows

gorm writes (NULL) for an empty list, so both in and not in were unknown
for every row. Nothing is in an empty list.
---
 gormq/miniquery.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 069e8eb..5cbbbb4 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -213,6 +213,9 @@ func (qb *queryBuilder) visit(node *miniquery.Node) (err error) {
 		if node.Type != miniquery.LogicExpressionType {
 			visit = qb.visitOperand
 		}
+		if isInEmptyList(node) {
+			return qb.visitInEmptyList(node)
+		}
 		err = visit(node.Left)
 		if err == nil {
 			buf.WriteRune(' ')
@@ -237,6 +240,31 @@ func (qb *queryBuilder) visitOperand(node *miniquery.Node) error {
 	return qb.visit(node)
 }
 
+// visitInEmptyList writes a condition that is never unknown, gorm writes (NULL) for an empty list
+func (qb *queryBuilder) visitInEmptyList(node *miniquery.Node) (err error) {
+	buf := qb.buf
+	buf.WriteRune('(')
+	if err = qb.visitOperand(node.Left); err != nil {
+		return
+	}
+	buf.WriteRune(' ')
+	buf.WriteString(normalizeSQL(node.Op.Operation))
+	if node.Op.Operation == miniquery.OpIn {
+		buf.WriteString(" (NULL) and 1 = 0)")
+	} else {
+		buf.WriteString(" (NULL) or 1 = 1)")
+	}
+	return
+}
+
+func isInEmptyList(node *miniquery.Node) bool {
+	switch node.Op.Operation {
+	case miniquery.OpIn, miniquery.OpNotIn:
+		return len(node.Right.Array) == 0
+	}
+	return false
+}
+
 func (qb *queryBuilder) visitFunction(node *miniquery.Node) (err error) {
 	buf := qb.buf
 	visit := qb.visit
-- 
2.43.0


From 43cc8a5f0864bd113ce2ccf5998fa62ba29edf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:35:18 +0000
Subject: [PATCH 39/47] fix: ent SQL filter with an empty list was not valid
 SQL

IN () is only read by SQLite.
---
 entmq/entsql.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 3c6ca14..fcb0e0b 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -231,6 +231,9 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		if node.Type == miniquery.CompareExpressionType {
 			visit = mb.visitOperand
 		}
+		if isInEmptyList(node) {
+			return mb.visitInEmptyList(node)
+		}
 		err = visit(node.Left)
 		op, found := entsqlOpMap[node.Op.Operation]
 		if !found {
@@ -267,6 +270,31 @@ func (mb *MiniQLToEntSQLBuilder) visitOperand(node *miniquery.Node) error {
 	return mb.visit(node)
 }
 
+// visitInEmptyList writes a condition that is never unknown, IN () is not valid in every database
+func (mb *MiniQLToEntSQLBuilder) visitInEmptyList(node *miniquery.Node) error {
+	s := mb.SQLBuilder
+	if s == nil {
+		s = &mb.Builder
+	}
+	s.WriteString("(")
+	err := mb.visitOperand(node.Left)
+	s.WriteOp(entsqlOpMap[node.Op.Operation])
+	if node.Op.Operation == miniquery.OpIn {
+		s.WriteString("(NULL) AND 1 = 0)")
+	} else {
+		s.WriteString("(NULL) OR 1 = 1)")
+	}
+	return err
+}
+
+func isInEmptyList(node *miniquery.Node) bool {
+	switch node.Op.Operation {
+	case miniquery.OpIn, miniquery.OpNotIn:
+		return len(node.Right.Array) == 0
+	}
+	return false
+}
+
 var entsqlOpMap = map[miniquery.OpType]sql.Op{
 	miniquery.OpEQ:        sql.OpEQ,
 	miniquery.OpNEQ:       sql.OpNEQ,
-- 
2.43.0


From 5a691c6834a7774e861e12e522f5f5302d7a56a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:37:42 +0000
Subject: [PATCH 40/47] fix: ent SQL edge condition as an operand of a
 comparison was not grouped

true = has_edge(owner) became ? = owner_id IS NOT NULL, which SQL reads as
(? = owner_id) IS NOT NULL.
---
 entmq/entsql.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index fcb0e0b..2f324fb 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -203,7 +203,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 			ro = sql.OpGT
 		}
 
-		err = visit(node.Left)
+		err = mb.visitOperand(node.Left)
 		if err == nil {
 			s.WriteOp(lo)
 			err = visit(node.Params[0])
@@ -212,7 +212,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 			s.WriteString(" AND ")
 		}
 		if err == nil {
-			err = visit(node.Left)
+			err = mb.visitOperand(node.Left)
 		}
 		if err == nil {
 			s.WriteOp(ro)
@@ -266,6 +266,10 @@ func (mb *MiniQLToEntSQLBuilder) visitOperand(node *miniquery.Node) error {
 	switch node.Type {
 	case miniquery.CompareExpressionType, miniquery.BetweenExpressionType, miniquery.PredicatesExpressionType:
 		node = &miniquery.Node{Type: miniquery.ParenthesesExpressionType, Expression: node}
+	case miniquery.FunctionExpressionType:
+		if node.Name == "has_edge" {
+			node = &miniquery.Node{Type: miniquery.ParenthesesExpressionType, Expression: node}
+		}
 	}
 	return mb.visit(node)
 }
-- 
2.43.0


From a201905c811a12a7f563b9c6003fbfae2b6f7095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:31 +0000
Subject: [PATCH 41/47] fix: strings that are not valid UTF-8 were changed

The parser works on runes and replaces invalid bytes, so a literal had another
value than written. Such a query is refused.
---
 miniquery/parse.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/miniquery/parse.go b/miniquery/parse.go
index 10af512..e556def 100644
--- a/miniquery/parse.go
+++ b/miniquery/parse.go
@@ -3,12 +3,17 @@ package miniquery
 import (
 	"errors"
 	"strings"
+	"unicode/utf8"
 )
 
 // maxDepth limits the nesting of parentheses, the parser is recursive
 const maxDepth = 10000
 
 func Parse(s string) (*Node, error) {
+	if !utf8.ValidString(s) {
+		// the parser replaces invalid bytes, literals would change
+		return nil, errors.New("query is not valid UTF-8")
+	}
 	if nestedDepth(s) > maxDepth {
 		return nil, errors.New("expression nested too deep")
 	}
-- 
2.43.0


From a731dfcb4cdf6616d1a403186a88e2288aac2600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:29:27 +0000
Subject: [PATCH 42/47] fix: a filter on a preload or an association used the
 columns of the parent model

---
 gormq/miniquery.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 5cbbbb4..85a0e2b 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -35,15 +35,16 @@ func (q MiniQuery) Scope(db *gorm.DB) *gorm.DB {
 
 func GetOrParseSchema(db *gorm.DB) (schema *schema.Schema, err error) {
 	stat := db.Statement
-	if stat.Schema == nil {
-		if stat.Model != nil {
-			if err = stat.Parse(stat.Model); err != nil {
-				return
-			}
-		} else {
-			return nil, fmt.Errorf("missing model")
+	if stat.Model != nil {
+		// Schema and Table of stat may be those of the parent in a preload or an association
+		stat = &gorm.Statement{DB: db}
+		if err = stat.Parse(db.Statement.Model); err != nil {
+			return
 		}
 	}
+	if stat.Schema == nil {
+		return nil, fmt.Errorf("missing model")
+	}
 	return stat.Schema, nil
 }
 
-- 
2.43.0


From 1263e8e7c319f12c7d83fa8db67116a09e639cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:31:43 +0000
Subject: [PATCH 43/47] fix: a column of a many to many association was
 ambiguous when the join table has it too

---
 gormq/miniquery.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 85a0e2b..7f80fcb 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -322,13 +322,19 @@ func isJoined(db *gorm.DB, relation string) bool {
 type ownColumn string
 
 func (c ownColumn) Build(builder clause.Builder) {
-	if stmt, ok := builder.(*gorm.Statement); ok && len(stmt.Joins) > 0 {
+	if stmt, ok := builder.(*gorm.Statement); ok && hasJoins(stmt) {
 		builder.WriteQuoted(stmt.Table + "." + string(c))
 		return
 	}
 	builder.WriteQuoted(string(c))
 }
 
+func hasJoins(stmt *gorm.Statement) bool {
+	// an association of many to many joins in its from clause
+	from, ok := stmt.Clauses["FROM"].Expression.(clause.From)
+	return len(stmt.Joins) > 0 || ok && len(from.Joins) > 0
+}
+
 func normalizeSQL(s string) string {
 	if v, ok := normalize[s]; ok {
 		return v
-- 
2.43.0


From cebbe332d7482bcc1910a915906ba287a6fdc465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:36:24 +0000
Subject: [PATCH 44/47] fix: an invalid filter was ignored in a nested
 condition

gorm does not look at the error of a handle that is given to Where, Or, Not
or Having of another one. The condition was missing and all rows were used.
The error is now part of the condition as well.
---
 gormq/miniquery.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 7f80fcb..dc8a668 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -63,14 +63,12 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 	db = db.Scopes()
 	ast, err := miniquery.Parse(query)
 	if err != nil {
-		_ = db.AddError(fmt.Errorf("invalid query syntax: %v", err))
-		return db
+		return addError(db, fmt.Errorf("invalid query syntax: %v", err))
 	}
 
 	schema, err := GetOrParseSchema(db)
 	if err != nil {
-		_ = db.AddError(err)
-		return db
+		return addError(db, err)
 	}
 	var vals []interface{}
 	buf := &strings.Builder{}
@@ -116,13 +114,28 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 	}
 	err = qb.visit(ast)
 	if err != nil {
-		_ = db.AddError(err)
+		db = addError(db, err)
 	} else {
 		db = db.Where(buf.String(), vals...)
 	}
 	return db
 }
 
+// addError make db fail, and every statement db is used in as a condition
+func addError(db *gorm.DB, err error) *gorm.DB {
+	_ = db.AddError(err)
+	return db.Where(errorCondition{err})
+}
+
+// errorCondition fail the statement it is built into, gorm ignores the error of a nested condition
+type errorCondition struct {
+	error
+}
+
+func (c errorCondition) Build(builder clause.Builder) {
+	_ = builder.AddError(c.error)
+}
+
 type queryBuilder struct {
 	buf      *strings.Builder
 	addValue func(interface{})
-- 
2.43.0


From f38f354bc66bfed95dd7d1fb8bf1e28abf2181f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:59:03 +0000
Subject: [PATCH 45/47] fix: a related column with a question mark in its name
 took the next value

The quoted name was part of the condition text, where gorm reads a question
mark as a placeholder. It is now written by gorm like the other columns.
---
 gormq/miniquery.go | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index dc8a668..18ec23c 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -73,9 +73,6 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 	var vals []interface{}
 	buf := &strings.Builder{}
 	joined := map[string][]string{}
-	quote := func(builder *strings.Builder, name string) {
-		db.QuoteTo(builder, name)
-	}
 	qb := &queryBuilder{
 		buf: buf,
 		addValue: func(i interface{}) {
@@ -107,10 +104,8 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 			}
 			joined[s] = append(joined[s], name)
 			// gorm Join logic name
-			// fixme quote
-			return s + "." + name, nil
+			return name, nil
 		},
-		quote: quote,
 	}
 	err = qb.visit(ast)
 	if err != nil {
@@ -140,7 +135,6 @@ type queryBuilder struct {
 	buf      *strings.Builder
 	addValue func(interface{})
 	mapName  func(s string) (string, error)
-	quote    func(builder *strings.Builder, name string)
 	join     func(s string, f string) (string, error)
 }
 
@@ -152,9 +146,8 @@ func (qb *queryBuilder) visitReference(node *miniquery.Node) (err error) {
 	if err != nil {
 		return err
 	}
-	quote := qb.quote
-	buf := qb.buf
-	quote(buf, name)
+	qb.buf.WriteRune('?')
+	qb.addValue(clause.Column{Table: node.Names[0], Name: name})
 	return
 }
 
-- 
2.43.0


From a0e379661a40c9b4997fe62a0b35bbafc2fc6077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:03:11 +0000
Subject: [PATCH 46/47] fix: a column in the condition of a joined relation was
 ambiguous

---
 gormq/miniquery.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 18ec23c..4c4f7b3 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -338,7 +338,8 @@ func (c ownColumn) Build(builder clause.Builder) {
 func hasJoins(stmt *gorm.Statement) bool {
 	// an association of many to many joins in its from clause
 	from, ok := stmt.Clauses["FROM"].Expression.(clause.From)
-	return len(stmt.Joins) > 0 || ok && len(from.Joins) > 0
+	// stmt is not the one of its DB in the condition of a join
+	return len(stmt.DB.Statement.Joins) > 0 || ok && len(from.Joins) > 0
 }
 
 func normalizeSQL(s string) string {
-- 
2.43.0


From 30500efabc767267185af8f85ada55dcbf1f5be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:56:33 +0000
Subject: [PATCH 47/47] fix: the description of a range or a null test left out
 what is tested

---
 miniquery/node.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/miniquery/node.go b/miniquery/node.go
index 804c85e..83b61b9 100644
--- a/miniquery/node.go
+++ b/miniquery/node.go
@@ -95,11 +95,17 @@ func (n Node) String() string {
 
 	switch n.Type {
 	case BetweenExpressionType:
+		buf.WriteString(n.Left.String())
+		buf.WriteString(",")
+		buf.WriteString(n.Op.String())
+		buf.WriteString(",")
 		buf.WriteString(n.Params[0].String())
 		buf.WriteString(",")
 		buf.WriteString(n.Params[1].String())
 	case PredicatesExpressionType:
-		buf.WriteString(n.Operation)
+		buf.WriteString(n.Left.String())
+		buf.WriteString(",")
+		buf.WriteString(n.Op.String())
 	case LogicExpressionType:
 		buf.WriteString(n.Op.String())
 		buf.WriteString(",")
-- 
2.43.0

