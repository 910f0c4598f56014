package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/wenerme/go-miniquery/miniquery"
	"pgregory.net/rapid"
)

// N is our own tree of a query.
//
//	int str bool null arr   literals
//	id ref                  a, a.b
//	func                    S(A...)
//	between                 A[0] Op A[1] and A[2]
//	pred                    A[0] Op
//	cmp                     A[0] Op A[1]
//	not paren               A[0]
//	logic                   A[0] Op A[1]
type N struct {
	K     string   `json:"k"`
	I     int      `json:"i,omitempty"`
	B     bool     `json:"b,omitempty"`
	S     string   `json:"s,omitempty"`
	Op    string   `json:"op,omitempty"`
	Names []string `json:"names,omitempty"`
	A     []*N     `json:"a,omitempty"`
}

func nInt(i int) *N            { return &N{K: "int", I: i} }
func nStr(s string) *N         { return &N{K: "str", S: s} }
func nBool(b bool) *N          { return &N{K: "bool", B: b} }
func nNull() *N                { return &N{K: "null"} }
func nArr(a ...*N) *N          { return &N{K: "arr", A: a} }
func nID(s string) *N          { return &N{K: "id", S: s} }
func nRef(s ...string) *N      { return &N{K: "ref", Names: s} }
func nFn(s string, a ...*N) *N { return &N{K: "func", S: s, A: a} }
func nBetween(op string, l, lo, hi *N) *N {
	return &N{K: "between", Op: op, A: []*N{l, lo, hi}}
}
func nPred(l *N, op string) *N      { return &N{K: "pred", Op: op, A: []*N{l}} }
func nCmp(l *N, op string, r *N) *N { return &N{K: "cmp", Op: op, A: []*N{l, r}} }
func nNot(x *N) *N                  { return &N{K: "not", A: []*N{x}} }
func nParen(x *N) *N                { return &N{K: "paren", A: []*N{x}} }
func nLogic(l *N, op string, r *N) *N {
	return &N{K: "logic", Op: op, A: []*N{l, r}}
}

func (n *N) isLit() bool {
	switch n.K {
	case "int", "str", "bool", "null", "arr":
		return true
	}
	return false
}

// walk calls f for n and everything below, in written order
func (n *N) walk(f func(*N)) {
	f(n)
	for _, c := range n.A {
		c.walk(f)
	}
}

func (n *N) size() (s int) {
	n.walk(func(*N) { s++ })
	return
}

func (n *N) has(f func(*N) bool) (ok bool) {
	n.walk(func(x *N) { ok = ok || f(x) })
	return
}

// copy returns a deep copy changed by f, bottom up
func (n *N) mapTree(f func(*N) *N) *N {
	c := *n
	c.A = nil
	for _, a := range n.A {
		c.A = append(c.A, a.mapTree(f))
	}
	return f(&c)
}

// Canon is a canonical text of a tree, two trees are the same iff it is equal.
func Canon(n *N) string {
	var sb strings.Builder
	canon(&sb, n)
	return sb.String()
}

func canon(sb *strings.Builder, n *N) {
	if n == nil {
		sb.WriteString("<nil>")
		return
	}
	switch n.K {
	case "int":
		sb.WriteString(strconv.Itoa(n.I))
	case "str":
		sb.WriteString(strconv.Quote(n.S))
	case "bool":
		sb.WriteString(strconv.FormatBool(n.B))
	case "null":
		sb.WriteString("null")
	case "id":
		sb.WriteString("@" + n.S)
	case "ref":
		sb.WriteString("@" + strings.Join(n.Names, "."))
	default:
		sb.WriteString("(" + n.K)
		if n.Op != "" {
			sb.WriteString(" <" + n.Op + ">")
		}
		if n.K == "func" {
			sb.WriteString(" " + n.S)
		}
		for _, a := range n.A {
			sb.WriteByte(' ')
			canon(sb, a)
		}
		sb.WriteByte(')')
	}
}

// FromNode converts the tree of the library.
func FromNode(n *miniquery.Node) *N {
	if n == nil {
		return nil
	}
	list := func(s []*miniquery.Node) (r []*N) {
		for _, v := range s {
			r = append(r, FromNode(v))
		}
		return
	}
	op := func() string {
		if n.Op == nil {
			return "<nil>"
		}
		if n.Op.Type != miniquery.OperationNodeType {
			return "<not an operation>"
		}
		return n.Op.Operation
	}
	switch n.Type {
	case miniquery.ValueNodeType:
		switch n.ValueType {
		case miniquery.IntValueType:
			return nInt(n.Int)
		case miniquery.StringValueType:
			return nStr(n.Str)
		case miniquery.BooleanValueType:
			return nBool(n.Bool)
		case miniquery.NullValueType:
			return nNull()
		case miniquery.ArrayValueType:
			return nArr(list(n.Array)...)
		}
		return &N{K: "unknown-value-" + string(n.ValueType)}
	case miniquery.IdentifierNodeType:
		return nID(n.Name)
	case miniquery.ReferenceNodeType:
		return nRef(n.Names...)
	case miniquery.FunctionExpressionType:
		return nFn(n.Name, list(n.Params)...)
	case miniquery.BetweenExpressionType:
		return &N{K: "between", Op: op(), A: append([]*N{FromNode(n.Left)}, list(n.Params)...)}
	case miniquery.PredicatesExpressionType:
		return nPred(FromNode(n.Left), op())
	case miniquery.CompareExpressionType:
		return nCmp(FromNode(n.Left), op(), FromNode(n.Right))
	case miniquery.LogicExpressionType:
		return nLogic(FromNode(n.Left), op(), FromNode(n.Right))
	case miniquery.NotExpressionType:
		return nNot(FromNode(n.Expression))
	case miniquery.ParenthesesExpressionType:
		return nParen(FromNode(n.Expression))
	}
	return &N{K: "unknown-" + string(n.Type)}
}

// parse calls the parser under test
func parse(s string) (n *miniquery.Node, err error, crash error) {
	crash = guard(func() { n, err = miniquery.Parse(s) })
	return
}

// ---- writing ----

var opSpellings = map[string][]string{
	"eq":          {"=", "==", "eq"},
	"neq":         {"!=", "<>", "neq"},
	"gt":          {">", "gt"},
	"gte":         {">=", "gte"},
	"lt":          {"<", "lt"},
	"lte":         {"<=", "lte"},
	"like":        {"like"},
	"not like":    {"not like"},
	"in":          {"in"},
	"not in":      {"not in"},
	"and":         {"and", "&&"},
	"or":          {"or", "||"},
	"between":     {"between"},
	"not between": {"not between"},
	"is null":     {"is null", "isnull"},
	"is not null": {"is not null", "notnull"},
	"is true":     {"is true"}, "is false": {"is false"},
	"is not true": {"is not true"}, "is not false": {"is not false"},
}

var cmpOps = []string{"eq", "neq", "gt", "gte", "lt", "lte", "like", "not like"}
var predOps = []string{"is null", "is not null", "is true", "is false", "is not true", "is not false"}

// Style says how freely a query is written.
type Style int

const (
	Plain Style = iota // one fixed way
	Loose              // spellings and some white space
	Wild               // everything the grammar allows
)

type writer struct {
	t     *rapid.T
	style Style
	sb    strings.Builder
	// bracketBetween allows the form between [a, b]
	bracketBetween bool
}

// Write writes the tree down. With a style other than Plain the ways are drawn from t.
func Write(t *rapid.T, n *N, style Style) string {
	if style != Plain {
		w := &writer{t: t, style: style, bracketBetween: true}
		s := w.write(n)
		if r, ok := refParse(s); ok && Canon(r) == Canon(n) {
			return s
		}
		// between [1,2] and 3 has another reading
		w = &writer{t: t, style: style}
		s = w.write(n)
		if r, ok := refParse(s); ok && Canon(r) == Canon(n) {
			return s
		}
	}
	w := &writer{style: Plain}
	s := w.write(n)
	if r, ok := refParse(s); !ok || Canon(r) != Canon(n) {
		panic(fmt.Sprintf("writer and reference parser disagree: %q %s %s", s, Canon(n), Canon(r)))
	}
	return s
}

func (w *writer) write(n *N) string {
	w.sp()
	w.expr(n, false)
	w.sp()
	return w.sb.String()
}

func (w *writer) pick(n int) int {
	if w.style == Plain || n <= 1 {
		return 0
	}
	return pick(w.t, n)
}

func (w *writer) rare(n int) bool { return w.style == Wild && pick(w.t, n) == n-1 }

var commentTexts = []string{"", "x", " note", " 'q", ` "`, " (", " ) or 1=1", " -- //", "é✓", " and b = 2", " ]"}
var eols = []string{"\n", "\r\n", "\r"}

// space writes at least one blank
func (w *writer) space() {
	if w.style == Plain || (w.style == Loose && w.pick(4) != 3) {
		w.sb.WriteByte(' ')
		return
	}
	for {
		switch w.pick(8) {
		case 0, 1, 2:
			w.sb.WriteByte(' ')
		case 3:
			w.sb.WriteByte('\t')
		case 4:
			w.sb.WriteString("  ")
		case 5:
			w.sb.WriteString(eols[w.pick(len(eols))])
		default:
			if w.style != Wild {
				w.sb.WriteByte(' ')
				break
			}
			w.sb.WriteString([]string{"--", "//"}[w.pick(2)])
			w.sb.WriteString(commentTexts[w.pick(len(commentTexts))])
			w.sb.WriteString(eols[w.pick(len(eols))])
		}
		if w.style != Wild || w.pick(3) != 2 {
			return
		}
	}
}

// sp writes blanks where the grammar allows any number
func (w *writer) sp() {
	if w.style == Wild && w.pick(4) == 3 {
		w.space()
	}
}

func isWord(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// tok writes a token with optional blanks before it, and at least one if it would run
// into the text before
func (w *writer) tok(s string, must bool) {
	cur := w.sb.String()
	if must || (len(cur) > 0 && isWord(cur[len(cur)-1]) && isWord(s[0])) {
		w.space()
	} else if w.style == Plain || w.style == Loose && w.pick(3) != 2 {
		w.sb.WriteByte(' ')
	} else {
		w.sp()
	}
	w.sb.WriteString(s)
}

func (w *writer) keyword(s string) string {
	if w.style == Plain {
		return s
	}
	switch w.pick(3) {
	case 1:
		return strings.ToUpper(s)
	case 2:
		b := []byte(s)
		for i := range b {
			if w.pick(2) == 1 {
				b[i] = strings.ToUpper(s[i : i+1])[0]
			}
		}
		return string(b)
	}
	return s
}

// words writes the words of an operator with blanks between them
func (w *writer) op(op string, must bool) {
	sp := opSpellings[op]
	s := sp[w.pick(len(sp))]
	fold := true
	switch op {
	case "between", "not between", "is null", "is not null", "is true", "is false", "is not true", "is not false":
		fold = false
	}
	for i, word := range strings.Split(s, " ") {
		f := fold || op == "not between" && i == 0
		if f {
			word = w.keyword(word)
		}
		if i > 0 {
			w.space()
			w.sb.WriteString(word)
		} else {
			w.tok(word, must)
		}
	}
}

// next separates an operator or keyword from the operand after it
func (w *writer) next(n *N) {
	cur := w.sb.String()
	if isWord(cur[len(cur)-1]) && w.startsWithWord(n) {
		w.space()
	} else if w.style == Plain || w.style == Loose && w.pick(3) != 2 {
		w.sb.WriteByte(' ')
	} else {
		w.sp()
	}
}

func (w *writer) startsWithWord(n *N) bool {
	switch n.K {
	case "int", "bool", "null", "id", "ref", "func", "not":
		return true
	case "between", "pred", "cmp", "logic":
		return w.startsWithWord(n.A[0])
	}
	return false
}

// expr writes n. value is set where only a value is allowed, then a list with one
// element may be written in parentheses.
func (w *writer) expr(n *N, value bool) {
	switch n.K {
	case "int":
		w.sb.WriteString(strconv.Itoa(n.I))
	case "str":
		w.str(n.S)
	case "bool":
		s := strconv.FormatBool(n.B)
		if w.pick(3) == 2 {
			s = strings.ToUpper(s)
		}
		w.sb.WriteString(s)
	case "null":
		w.sb.WriteString([]string{"null", "NULL"}[w.pick(2)])
	case "arr":
		w.arr(n, value)
	case "id":
		w.sb.WriteString(n.S)
	case "ref":
		w.sb.WriteString(strings.Join(n.Names, "."))
	case "func":
		w.sb.WriteString(n.S)
		w.list("(", ")", n.A, false)
	case "paren":
		w.sb.WriteByte('(')
		w.sp()
		w.expr(n.A[0], false)
		w.sp()
		w.sb.WriteByte(')')
	case "not":
		w.sb.WriteString(w.keyword("not"))
		w.space()
		w.expr(n.A[0], false)
	case "between":
		w.expr(n.A[0], false)
		w.op(n.Op, false)
		if w.bracketBetween && w.pick(5) == 4 {
			w.sp()
			w.list("[", "]", n.A[1:], true)
			return
		}
		w.next(n.A[1])
		w.expr(n.A[1], true)
		w.tok(w.keyword("and"), false)
		w.next(n.A[2])
		w.expr(n.A[2], true)
	case "pred":
		w.expr(n.A[0], false)
		w.op(n.Op, true)
	case "cmp":
		w.expr(n.A[0], false)
		w.op(n.Op, false)
		w.next(n.A[1])
		w.expr(n.A[1], n.Op == "in" || n.Op == "not in")
	case "logic":
		w.expr(n.A[0], false)
		w.op(n.Op, false)
		w.next(n.A[1])
		w.expr(n.A[1], false)
	default:
		panic("cannot write " + n.K)
	}
}

func (w *writer) str(s string) {
	q := `"`
	switch {
	case strings.Contains(s, `"`):
		q = `'`
	case strings.Contains(s, `'`):
	default:
		q = []string{`'`, `"`}[w.pick(2)]
	}
	w.sb.WriteString(q + s + q)
}

func (w *writer) arr(n *N, value bool) {
	if w.pick(2) == 1 {
		if value || len(n.A) != 1 {
			w.list("(", ")", n.A, false)
			return
		}
	}
	w.list("[", "]", n.A, false)
}

func (w *writer) list(open, closing string, a []*N, noTrail bool) {
	w.sb.WriteString(open)
	w.sp()
	for i, v := range a {
		if i > 0 {
			w.sp()
			w.sb.WriteByte(',')
			w.sp()
		}
		w.expr(v, noTrail)
	}
	if len(a) > 0 && !noTrail && w.rare(5) {
		w.sp()
		w.sb.WriteByte(',')
	}
	w.sp()
	w.sb.WriteString(closing)
}

// Fix rewrites a tree into one the grammar can produce: it adds parentheses where an
// operand would otherwise be read differently.
func Fix(n *N) *N { return fixExpr(n, 0) }

// levels: 0 or, 1 and, 2 not, 3 compare, 4 in, 5 predicate, 6 between, 7 primary
func level(n *N) int {
	switch n.K {
	case "logic":
		if n.Op == "or" {
			return 0
		}
		return 1
	case "not":
		return 2
	case "cmp":
		if n.Op == "in" || n.Op == "not in" {
			return 4
		}
		return 3
	case "pred":
		return 5
	case "between":
		return 6
	}
	return 7
}

func fixExpr(n *N, min int) *N {
	c := *n
	switch n.K {
	case "logic":
		l := level(n)
		c.A = []*N{fixExpr(n.A[0], l), fixExpr(n.A[1], l+1)}
	case "not":
		c.A = []*N{fixExpr(n.A[0], 3)}
	case "cmp":
		if level(n) == 4 {
			c.A = []*N{fixExpr(n.A[0], 5), n.A[1]}
		} else {
			c.A = []*N{fixExpr(n.A[0], 3), fixExpr(n.A[1], 4)}
		}
	case "pred":
		c.A = []*N{fixExpr(n.A[0], 6)}
	case "between":
		c.A = []*N{fixExpr(n.A[0], 7), n.A[1], n.A[2]}
	case "paren", "func":
		c.A = nil
		for _, a := range n.A {
			c.A = append(c.A, fixExpr(a, 0))
		}
	}
	if level(&c) < min {
		return nParen(&c)
	}
	return &c
}
