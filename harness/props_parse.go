package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/wenerme/go-miniquery/miniquery"
	"pgregory.net/rapid"
)

func quoteShort(s string) string {
	if len(s) > 400 {
		return fmt.Sprintf("%q... (%d bytes)", s[:400], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// mustParse parses a text that has to be accepted
func mustParse(s string) (*miniquery.Node, *N, error) {
	n, err, crash := parse(s)
	if crash != nil {
		return nil, nil, failf("parsing %s crashed: %v", quoteShort(s), crash)
	}
	if err != nil {
		return nil, nil, failf("%s is a query but is refused: %v", quoteShort(s), err)
	}
	if n == nil {
		return nil, nil, failf("parsing %s gives no tree and no error", quoteShort(s))
	}
	return n, FromNode(n), nil
}

func sameTree(s string, got, want *N) error {
	if g, w := Canon(got), Canon(want); g != w {
		return failf("%s has the tree\n %s\nwant\n %s", quoteShort(s), g, w)
	}
	return nil
}

// ---- soups: strings that are often almost a query ----

var soupTokens = []string{
	" ", "a", "1", "=", "and", "or", "not", "(", ")", "'x'", ",", "[", "]", ".", "in", "between", "is", "null", "like",
	"a.b", "f(", "isnull", "notnull", "true", "false", "->", "<", ">", "!", "!=", ">=", "<=", "==", "<>", "&&", "||", "&", "|",
	"gt", "gte", "lt", "lte", "eq", "neq", "\n", "\t", "\r", "\r\n", "-- c\n", "// c\n", "--", "//", "-", "/", "'", `"`, `"y"`, "''",
	"0", "00", "01", "9223372036854775807", "9223372036854775808", "99999999999999999999", "-1", "+1", "1.5", "1e3", "0x1", "1_000",
	"TRUE", "FALSE", "NULL", "Null", "True", "AND", "Or", "NOT", "IN", "Like", "BETWEEN", "IS", "_", "a_b", "é", "日", "%", ";", "*", "?",
	"date(", "has_edge(", "a=1", "b is null", "c in (1,2)", "d between 1 and 2", "e not like 'z'", "(a=1)", "[1,2]", "(1)", "()", "[]", "{", "}", "\\", "`", "$1", "@",
	"\x00", "\x7f", "\u00a0", "\u2028", "\ufeff", "\v", "\f",
}

func genSoup(t *rapid.T) string {
	n := 1 + pick(t, 10)
	if chance(t, 10) {
		n = 1 + pick(t, 40)
	}
	var sb strings.Builder
	glue := pick(t, 3)
	for i := 0; i < n; i++ {
		if i > 0 && (glue == 0 || glue == 1 && pick(t, 2) == 0) {
			sb.WriteByte(' ')
		}
		if chance(t, 25) && len(dictStrings) > 0 {
			sb.WriteString(oneOf(t, dictStrings))
			continue
		}
		sb.WriteString(oneOf(t, soupTokens))
	}
	return sb.String()
}

var (
	numberRe = regexp.MustCompile(`\b[0-9]+\b`)
	dotRe    = regexp.MustCompile(`[a-zA-Z]\w*(\.[a-zA-Z]\w*)+`)
	wordRe   = regexp.MustCompile(`\b\w+\b`)
)

// genMutant changes a valid query a little
func genMutant(t *rapid.T) string {
	s := Write(t, genTree(t), Style(pick(t, 3)))
	b := []byte(s)
	if len(b) > 3000 {
		b = b[:3000]
	}
	k := 1 + pick(t, 2)
	for i := 0; i < k && len(b) > 0; i++ {
		p := pick(t, len(b))
		switch pick(t, 10) {
		case 7: // numbers out of range
			b = numberRe.ReplaceAllFunc(b, func(s []byte) []byte {
				if pick(t, 2) == 0 {
					return s
				}
				return []byte(oneOf(t, []string{"9223372036854775808", "99999999999999999999", "18446744073709551616", strings.Repeat("9", 40)}))
			})
		case 8: // references into JSON
			b = dotRe.ReplaceAllFunc(b, func(s []byte) []byte {
				if pick(t, 2) == 0 {
					return s
				}
				return []byte(strings.ReplaceAll(string(s), ".", "->"))
			})
		case 9: // a name or number of another kind
			b = wordRe.ReplaceAllFunc(b, func(s []byte) []byte {
				if pick(t, 8) != 7 {
					return s
				}
				return []byte(oneOf(t, []string{"99999999999999999999", "a->b", "a.b", "null", "not", "f()", "()", "1"}))
			})
		case 0: // delete
			b = append(b[:p:p], b[p+1:]...)
		case 1: // insert a token
			b = append(b[:p:p], append([]byte(oneOf(t, soupTokens)), b[p:]...)...)
		case 2: // cut
			b = b[:p]
		case 3: // repeat a part
			q := p + pick(t, min(len(b)-p, 12)+1)
			b = append(b[:q:q], append([]byte(string(b[p:q])), b[q:]...)...)
		case 4: // replace
			b = append(b[:p:p], append([]byte(oneOf(t, soupTokens)), b[p+1:]...)...)
		case 5: // swap
			if p+1 < len(b) {
				b[p], b[p+1] = b[p+1], b[p]
			}
		case 6: // append
			b = append(b, oneOf(t, soupTokens)...)
		}
	}
	return strings.ToValidUTF8(string(b), "ü")
}

// ---- C01 ----

type caseC01 struct {
	// Head, N times Unit, Tail
	Head []byte `json:"head,omitempty"`
	Unit []byte `json:"unit,omitempty"`
	N    int    `json:"n,omitempty"`
	Mid  []byte `json:"mid,omitempty"`
	Back []byte `json:"back,omitempty"` // N times
	Tail []byte `json:"tail,omitempty"`
}

func (c caseC01) text() string {
	var b []byte
	b = append(b, c.Head...)
	b = append(b, bytes.Repeat(c.Unit, c.N)...)
	b = append(b, c.Mid...)
	b = append(b, bytes.Repeat(c.Back, c.N)...)
	b = append(b, c.Tail...)
	return string(b)
}

var openers = []string{"(", "((", "[", "f(", "not (", "not ", "(a=1 and ", "a=(", "a in (", "a between [", "'", `"`, "a.", "a->", "--", "//", "a=1 or (",
	"a and not (", "1,", "[1,", "(1,", "x(1,", "date(", "has_edge(e,", "(not ", "a is ", "not not ", "a=", "a<", "((a)=", "between ", "a between 1 and ", "-- x\n", " ", "\n", "\r"}
var closers = []string{")", "))", "]", "", ")=1", " = b)", ",)", " and b)", "'", ",", " ", "))=(", " is null)", ".x", "->x"}
var units = []string{"a=1 and ", "a or ", "=", "a=", "a.b.", ",", "1", "1,", "'x',", "not in ", " in (1)", "and", "or", "a", "_", "0", "9", "=b", " like b", "->b", ".b",
	"--\n", "//\r", " \t", " ", "\n", "\r\n", "()", "[]", "(1)", "[1]", "f()", "true ", "null", "a isnull or ", "a between 1 and 2 or ", "a in [1,2,3] and ", "é", "\x80", "\xff\xfe", "\x00", "'", `"`, "''", "a='b' and ", "(a) and ", "(((a))) or "}

var bigOnes = []string{"a in (|1,|2)", "a in [|'x', |null]", "a not in (|true,|)", "f(|a,|b)", "f(|a = 1, |b) = 1", "f(|(a),|)", "a = '|x|'", "a = \"|é|\"", "a = [|1,|1]", "|a = 1 and |b = 2", "|a or |b", "|a and not b or |c",
	"|a = b or (c) and |d", "a|= b | = c", "a|a|", "a|.b|", "a = 1 |-- x\n|", "a = |//\n|1", "not (|(|a|)|)", "|(|a = 1|)|", "|f(|a|)|", "|not (|a|)|", "a in (1) |and a in (1) |", "|a between 1 and 2 and |b", "|a is null or |b", "f(|'x', |'y')",
	"a = b |like 'x' |", "|f(g(|1|))|", "|(a = 1 and |b|)|", "a = '|((|'", "a = 1 --|((|\n", "|has_edge(e, |a = 1|)|", "a in (0|, 1|)", "[|1,|1]", "(|'x', |null)"}

func genC01(t *rapid.T) (c caseC01) {
	size := func(unit int) int {
		if unit == 0 {
			unit = 1
		}
		var total int
		switch pick(t, 12) {
		case 11:
			total = 256 << 10
		case 10:
			total = 64 << 10
		case 9:
			total = 16 << 10
		case 8:
			return 9990 + pick(t, 20)
		default:
			return genSize(t)
		}
		return total / unit
	}
	switch pick(t, 10) {
	case 9:
		// a valid query with very much of something
		s := strings.Split(oneOf(t, bigOnes), "|")
		c.Head, c.Unit, c.Mid = []byte(s[0]), []byte(s[1]), []byte(s[2])
		unit := len(c.Unit)
		if len(s) > 3 {
			c.Back, c.Tail = []byte(s[3]), []byte(s[4])
			unit += len(c.Back)
		}
		c.N = size(unit)
		for i := pick(t, 3); i > 0; i-- {
			// as a part of something else
			s := strings.Split(oneOf(t, []string{"f(|)", "(|)", "not (|)", "b and |", "|or b", "g(b,|,1)", "a = f(|)", "not f(|) or b", "(b or |)", "(|) = 1", "a between f(|) and 1"}), "|")
			c.Head = append([]byte(s[0]), c.Head...)
			c.Tail = append(c.Tail, s[1]...)
		}
	case 8:
		// much space inside of something
		s := strings.Split(oneOf(t, []string{"a not|like 'x'", "a not|in (1)", "a is|null", "a is|not|null", "a not|between 1 and 2", "not|a", "a|=|1",
			"a in|(1)", "f(|a|)", "[|1|]", "a between|1|and 2", "a|and|b", "a|", "|a", "a is not|true"}), "|")
		c.Head, c.Unit, c.Mid = []byte(s[0]), []byte(oneOf(t, []string{" ", "\t", "\n", " \t", "\r\n", "--\n", "--x y\r", "  //\n"})), []byte(s[1])
		c.N = size(len(c.Unit))
		if len(s) > 2 {
			c.Back, c.Tail = c.Unit, []byte(s[2])
			c.N = size(2 * len(c.Unit))
		}
	case 0:
		c.Head = []byte(genSoup(t))
	case 1:
		c.Head = []byte(genMutant(t))
	case 2:
		n := pick(t, 40)
		if chance(t, 10) {
			n = genSize(t)
		}
		if n > 200 {
			c.Unit, c.N = []byte{byte(pick(t, 256)), byte(pick(t, 256))}, n
			return
		}
		for i := 0; i < n; i++ {
			c.Head = append(c.Head, byte(pick(t, 256)))
		}
	case 3:
		// raw bytes inside a query
		s := []byte(Write(t, genTree(t), Loose))
		if len(s) > 2000 {
			s = s[:2000]
		}
		for i := 0; i < 1+pick(t, 3); i++ {
			p := pick(t, len(s))
			s[p] = byte(pick(t, 256))
		}
		c.Head = s
	case 4, 5:
		c.Unit = []byte(oneOf(t, openers))
		c.N = size(len(c.Unit))
		c.Mid = []byte(oneOf(t, []string{"a", "a=1", "", "1", "'x'", "not", "a in (1)", "1,2"}))
		if pick(t, 3) > 0 {
			c.Back = []byte(oneOf(t, closers))
			c.N = size(len(c.Unit) + len(c.Back))
		}
		if chance(t, 4) {
			c.Tail = []byte(oneOf(t, soupTokens))
		}
	case 6:
		c.Head = []byte(oneOf(t, []string{"", "a", "a=1", "a in (", "(", "'", "[", "f(", "a ", "a between ", "a not", "a is", "a is not", "a not --", "not", "a =", "a in"}))
		c.Unit = []byte(oneOf(t, units))
		c.N = size(len(c.Unit))
		c.Tail = []byte(oneOf(t, []string{"", "a", "1", ")", "]", "'", "b=1", "\n", " like 'x'", "in (1)", " null", "not null", "between 1 and 2", "(1)"}))
	case 7:
		c.Unit = []byte(genSoup(t))
		c.N = 1 + pick(t, 200)
		if chance(t, 3) {
			c.N = genSize(t)
		}
		if c.N*len(c.Unit) > 128<<10 {
			c.N = 128 << 10 / len(c.Unit)
		}
	}
	if c.N == 0 {
		c.Unit, c.Back = nil, nil
	}
	return
}

func evalC01(c caseC01, r *Rec) error {
	s := c.text()
	if !utf8.ValidString(s) {
		r.Label("invalid utf-8")
	}
	switch {
	case len(s) >= 100<<10:
		r.Label("100 KiB and more")
	case len(s) >= 10<<10:
		r.Label("10 KiB and more")
	}
	n, err, crash := parse(s)
	if crash != nil {
		return failf("parsing %s crashed: %v", quoteShort(s), crash)
	}
	if (n == nil) == (err == nil) {
		return failf("parsing %s gives tree=%v error=%v", quoteShort(s), n != nil, err)
	}
	if err != nil {
		r.Label("refused")
		r.NonTrivial(len(s) > 3)
		if crash := guard(func() { _ = err.Error() }); crash != nil {
			return failf("the error for %s crashed: %v", quoteShort(s), crash)
		}
		return nil
	}
	r.Label("accepted")
	r.NonTrivial(true)
	if crash := guard(func() {
		_ = miniquery.Build(n)
		if len(s) <= 16<<10 {
			// describing copies the text of every level
			_ = n.String()
			_ = fmt.Sprintf("%v %s", *n, n)
		}
		var walk func(n *miniquery.Node)
		walk = func(n *miniquery.Node) {
			if n == nil {
				return
			}
			if n.Type == miniquery.ValueNodeType {
				_ = n.Value()
			}
			_, _ = n.IsValue(), n.IsExpression()
			walk(n.Left)
			walk(n.Op)
			walk(n.Right)
			walk(n.Expression)
			for _, v := range n.Params {
				walk(v)
			}
			for _, v := range n.Array {
				walk(v)
			}
		}
		walk(n)
	}); crash != nil {
		return failf("the tree of %s crashed: %v", quoteShort(s), crash)
	}
	return nil
}

// ---- C02 ----

type caseTree struct {
	Tree *N     `json:"tree"`
	Text string `json:"text"`
}

func labelTree(r *Rec, n *N) {
	kinds := map[string]bool{}
	n.walk(func(x *N) {
		k := x.K
		if x.Op != "" {
			k = x.Op
		}
		kinds[k] = true
	})
	for k := range kinds {
		r.Label("has %s", k)
	}
	switch s := n.size(); {
	case s >= 200:
		r.Label("200 nodes and more")
	case s >= 30:
		r.Label("30 nodes and more")
	case s >= 8:
		r.Label("8 nodes and more")
	}
}

func genC02(t *rapid.T) caseTree {
	n := genTree(t)
	return caseTree{n, Write(t, n, Style(pick(t, 3)))}
}

func evalC02(c caseTree, r *Rec) error {
	labelTree(r, c.Tree)
	r.NonTrivial(c.Tree.size() >= 3)
	_, got, err := mustParse(c.Text)
	if err != nil {
		return err
	}
	return sameTree(c.Text, got, c.Tree)
}

// ---- C03 ----

type caseText struct {
	Text []byte `json:"text"`
}

// genBig draws a large text; it is a query but for some of the tails
func genBig(t *rapid.T) string {
	n := oneOf(t, []int{300, 1000, 3000, 10050, 33000, 66000})
	a := Write(t, Fix(defaultTreeGen(2).expr(t, 1)), Loose)
	u := oneOf(t, []string{"(", ")", "()", "((", "x", "--", "//", "\n", " ", "é"})
	var s string
	switch pick(t, 9) {
	case 0:
		// deeper than this may be refused
		n = min(n, 3000)
		s = strings.Repeat("(", n) + a + strings.Repeat(")", n)
	case 1:
		n = min(n, 3000)
		s = strings.Repeat("f(", n) + a + strings.Repeat(")", n)
	case 2:
		q := oneOf(t, []string{"'", `"`})
		s = "a = " + q + strings.Repeat(u, n) + q
	case 3:
		u = strings.TrimRight(u, "\n")
		s = a + oneOf(t, []string{" --", " //"}) + strings.Repeat(u, n) + "\n"
	case 4:
		s = a + oneOf(t, []string{" --it's", ` // "`}) + "\n" + strings.Repeat(" ", n)
	case 5:
		s = "a in (" + strings.Repeat(oneOf(t, []string{"1,", "'(',", "null , "}), n) + "2)"
	case 6:
		s = strings.Repeat(a+oneOf(t, []string{" and ", " or "}), 1+min(n, 33000)/len(a)) + a
	case 7:
		s = strings.Repeat("n", n) + oneOf(t, []string{"", " = 1", ".a = 1", "(1)"})
	case 8:
		// many pairs, none of them deep
		s = strings.Repeat("('(') = (1) or ", min(n, 10050)) + a
	}
	if chance(t, 4) {
		s += oneOf(t, []string{"(", ")", "'", "]", " and", "--", "--\n", ",", " "})
	}
	return s
}

// genOdd puts something unusual into a query, mostly at an end
func genOdd(t *rapid.T) string {
	s := Write(t, genTree(t), Style(pick(t, 3)))
	odd := oneOf(t, oddTokens)
	switch k := pick(t, 5); k {
	case 0:
		return odd + s
	case 1:
		return s + odd
	case 2:
		// letters that are others in lower or upper case
		for _, r := range []string{"k\u212a", "K\u212a", "s\u017f", "i\u0131", "I\u0130"} {
			if i := strings.Index(s, r[:1]); i >= 0 && pick(t, 2) == 0 {
				return s[:i] + r[1:] + s[i+1:]
			}
		}
	}
	p := pick(t, len(s)+1)
	return s[:p] + odd + s[p:]
}

var oddTokens = []string{
	";", ";;", "\ufeff", "\u00a0", "\u3000", "\u200b", "\x00", "\xff", "\xc3", "\u0085", "\u2028", "\v", "\f", "\b", "\x1a", "\\", "\\'", "#", "# c\n", "/* c */", "/*", "*/",
	"\u201c", "\u2019", "\uff11", "\uff1d", "\u00bd", "`", "``", ":", "::", ":=", "?", "!", "~", "^", "%", "&", "|", "@", "$", "$1", "+", "-", "*", "/", "-- c", "// c", "--", "//", ",", ".", "..", "()", "[]", "{}", "_", "\x7f",
	"\r", "\n", "\t", " ", "\r\n", "\n\r", "\\n", "''", `""`, "where ", " limit 1", " order by a", " and", "and ", " or", "or ", "not ", " not", "!", "=", " is", "=="}

func genC03(t *rapid.T) caseText {
	var s string
	if chance(t, 10) {
		return caseText{[]byte(genOdd(t))}
	}
	if chance(t, 30) && chance(t, 12) {
		return caseText{[]byte(genBig(t))}
	}
	switch pick(t, 5) {
	case 0, 1:
		s = genSoup(t)
	case 2, 3:
		s = genMutant(t)
	case 4:
		// a query with an unusual name
		n := genTree(t).mapTree(func(n *N) *N {
			if n.K == "id" && pick(t, 2) == 1 {
				n.S = oneOf(t, append([]string{"not", "Not", "NOT", "not_", "nota"}, reserved...))
			}
			if n.K == "func" && pick(t, 3) == 2 {
				n.S = oneOf(t, append([]string{"not"}, reserved...))
			}
			return n
		})
		w := &writer{t: t, style: Style(pick(t, 3)), bracketBetween: true}
		s = w.write(n)
	}
	return caseText{[]byte(s)}
}

func evalC03(c caseText, r *Rec) error {
	s := string(c.Text)
	want, ok := refParse(s)
	n, err, crash := parse(s)
	if crash != nil {
		return failf("parsing %s crashed: %v", quoteShort(s), crash)
	}
	if !ok {
		r.Label("not a query")
		r.NonTrivial(len(s) >= 3)
		if err == nil {
			return failf("%s is not a query but is accepted as %s", quoteShort(s), Canon(FromNode(n)))
		}
		return nil
	}
	r.Label("query")
	if len(s) > 5000 {
		r.Label("more than 5000 bytes")
	}
	r.NonTrivial(true)
	if err != nil {
		return failf("%s is a query but is refused: %v", quoteShort(s), err)
	}
	return sameTree(s, FromNode(n), want)
}

// every sequence of these tokens, joined with and without blanks
var enumTokens = []string{
	"a", "1", "'x'", "=", "and", "or", "not", "(", ")", "[", "]", ",", ".", "in", "between", "is", "null", "like", "isnull", "notnull",
	"true", "->", "<", ">", "&&", "||", "f(", "-", "/", "\n", "gte", "<>",
}

var coreTokens = []string{"a", "1", "=", "and", "or", "not", "(", ")", ",", "in", "between", "is", "null", ".", "[", "]"}

func enumC03(tier string, shard, shards int, run func(c any) bool) {
	count := 0
	both := func(a, b string) bool {
		count++
		if count%shards != shard {
			return true
		}
		return run(caseText{[]byte(a)}) && (a == b || run(caseText{[]byte(b)}))
	}
	var sequences func(tokens, parts []string, n int) bool
	sequences = func(tokens, parts []string, n int) bool {
		if n == 0 {
			return both(strings.Join(parts, " "), strings.Join(parts, ""))
		}
		for _, tok := range tokens {
			if !sequences(tokens, append(parts[:len(parts):len(parts)], tok), n-1) {
				return false
			}
		}
		return true
	}
	for n := 0; n <= 4; n++ {
		if !sequences(enumTokens, nil, n) {
			return
		}
	}
	if tier == "thorough" && (!sequences(coreTokens, nil, 5) || !sequences(coreTokens[:10], nil, 6)) {
		return
	}
	// a complete expression with one token before, inside or after it
	for _, q := range []string{"a=1", "a in (1,2)", "a between 1 and 2", "a is not null", "not a", "f(a,1)", "a.b like 'x'", "(a)", "a<>1 and b"} {
		for p := 0; p <= len(q); p++ {
			for _, tok := range soupTokens {
				if !both(q[:p]+tok+q[p:], q[:p]+" "+tok+" "+q[p:]) {
					return
				}
			}
		}
	}
}

// ---- C04 ----

type caseC04 struct {
	Lit  *N     `json:"lit"`            // the literal
	Bad  string `json:"bad,omitempty"`  // or the digits of a number out of range
	Tree *N     `json:"tree"`           // the query around it
	Text string `json:"text"`           // as written
	Many int    `json:"many,omitempty"` // or this many copies in one list or string
	Raw  []byte `json:"raw,omitempty"`  // or a text with a string that is not UTF-8
}

func genC04(t *rapid.T) (c caseC04) {
	mangled := false
	if pick(t, 5000) == 4999 {
		// very many parts
		c.Many = 1 + pick(t, 12000)
		c.Lit = nStr(oneOf(t, []string{"a", "ab", "0123456789abcdef", "é", "日本", "a\nb"}))
		if pick(t, 2) == 0 {
			c.Lit = nArr(nInt(genInt(t)), nInt(1))
			if pick(t, 2) == 0 {
				c.Lit = nArr(genLit(t))
			}
		} else if pick(t, 2) == 0 {
			c.Many *= 10
		}
		return
	}
	if chance(t, 5) {
		// out of range
		switch pick(t, 3) {
		case 0:
			v := new(big.Int).SetUint64(1 << 63)
			v.Add(v, big.NewInt(int64(genInt(t))))
			c.Bad = v.String()
		case 1:
			v := new(big.Int).Lsh(big.NewInt(1), uint(63+pick(t, 130)))
			v.Add(v, big.NewInt(int64(pick(t, 3))))
			c.Bad = v.String()
		case 2:
			// the same low 64 bits as a small number
			v := new(big.Int).Lsh(big.NewInt(int64(1+pick(t, 9))), 64)
			v.Add(v, big.NewInt(int64(genInt(t))))
			c.Bad = v.String()
			if chance(t, 3) {
				c.Bad = strings.Repeat("9", 19+pick(t, 300))
			}
		}
		c.Lit = nInt(918273645918273)
	} else if chance(t, 12) {
		mangled = true
		c.Lit = nStr(oneOf(t, []string{"", "a", "日"}) + "~~" + oneOf(t, []string{"", "b", "é"}))
	} else if chance(t, 5) {
		c.Lit = genArr(t)
	} else {
		c.Lit = genLit(t)
	}
	other := func() *N { return nID(oneOf(t, []string{"a", "b", "created_at"})) }
	n := c.Lit
	switch k := pick(t, 8); {
	case k == 0:
	case k == 1:
		n = nCmp(other(), oneOf(t, cmpOps), n)
	case k == 2:
		n = nCmp(n, oneOf(t, cmpOps), other())
	case k == 3 && n.K != "arr":
		n = nCmp(other(), oneOf(t, []string{"in", "not in"}), nArr(genLit(t), n, genLit(t)))
	case k == 3:
		n = nCmp(other(), oneOf(t, []string{"in", "not in"}), n)
	case k == 4:
		n = nBetween(oneOf(t, []string{"between", "not between"}), other(), n, genLit(t))
	case k == 5:
		n = nBetween(oneOf(t, []string{"between", "not between"}), other(), genLit(t), n)
	case k == 6:
		n = nFn("f", genLit(t), n, other())
	default:
		n = nNot(nParen(nLogic(nCmp(other(), "eq", genLit(t)), "and", nCmp(other(), "neq", n))))
	}
	c.Tree = Fix(n)
	c.Text = Write(t, c.Tree, Style(pick(t, 3)))
	if c.Bad != "" {
		c.Text = strings.Replace(c.Text, "918273645918273", c.Bad, 1)
	}
	if mangled {
		c.Raw = []byte(strings.Replace(c.Text, "~~", oneOf(t, []string{"\xff", "\xc3", "\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\xaf", "\xfe\xff", "\xe9"}), 1))
	}
	return
}

func sameValue(v any, n *N) error {
	bad := func() error { return failf("value %#v (%T), want %s", v, v, Canon(n)) }
	switch n.K {
	case "int":
		if v != any(n.I) {
			return bad()
		}
	case "str":
		if v != any(n.S) {
			return bad()
		}
	case "bool":
		if v != any(n.B) {
			return bad()
		}
	case "null":
		if v != nil {
			return bad()
		}
	case "arr":
		s, ok := v.([]any)
		if !ok || len(s) != len(n.A) {
			return bad()
		}
		for i := range s {
			if err := sameValue(s[i], n.A[i]); err != nil {
				return err
			}
		}
	}
	return nil
}

// evalMany checks a literal with very many parts
func evalMany(c caseC04, r *Rec) error {
	r.Label("literal of %d parts or more", c.Many/1000*1000)
	r.NonTrivial(true)
	w := nStr(strings.Repeat(c.Lit.S, c.Many))
	if c.Lit.K == "arr" {
		w = nArr()
		for i := 0; i < c.Many; i++ {
			w.A = append(w.A, c.Lit.A[i%len(c.Lit.A)])
		}
	}
	n := Fix(nCmp(nID("a"), "in", w))
	if c.Lit.K == "str" {
		n = Fix(nCmp(nID("a"), "eq", w))
	}
	text := Write(nil, n, Plain)
	m, got, err := mustParse(text)
	if err != nil {
		return err
	}
	if err := sameTree(text, got, n); err != nil {
		return err
	}
	var v any
	if crash := guard(func() { v = m.Right.Value() }); crash != nil {
		return failf("the value in %s crashed: %v", quoteShort(text), crash)
	}
	if err := sameValue(v, w); err != nil {
		return failf("in %s: %s", quoteShort(text), quoteShort(err.Error()))
	}
	return nil
}

func evalC04(c caseC04, r *Rec) error {
	if c.Bad != "" {
		r.Label("integer out of range")
		r.NonTrivial(true)
		n, err, crash := parse(c.Text)
		if crash != nil {
			return failf("parsing %s crashed: %v", quoteShort(c.Text), crash)
		}
		if err == nil {
			return failf("the integer in %s is out of range but accepted as %s", quoteShort(c.Text), Canon(FromNode(n)))
		}
		return nil
	}
	if c.Raw != nil {
		r.Label("string that is not UTF-8")
		r.NonTrivial(true)
		s := string(c.Raw)
		n, err, crash := parse(s)
		if crash != nil {
			return failf("parsing %s crashed: %v", quoteShort(s), crash)
		}
		if err == nil {
			return failf("the string in %s is not UTF-8 but accepted as %s", quoteShort(s), Canon(FromNode(n)))
		}
		return nil
	}
	if c.Many > 0 {
		return evalMany(c, r)
	}
	r.Label("literal %s", c.Lit.K)
	r.NonTrivial(c.Tree.K != "bool" && c.Tree.K != "null")
	n, got, err := mustParse(c.Text)
	if err != nil {
		return err
	}
	if err := sameTree(c.Text, got, c.Tree); err != nil {
		return err
	}
	// Value of every literal
	var bad error
	var walk func(m *miniquery.Node, w *N)
	walk = func(m *miniquery.Node, w *N) {
		if bad != nil {
			return
		}
		if w.isLit() {
			var v any
			if crash := guard(func() { v = m.Value() }); crash != nil {
				bad = crash
			} else if err := sameValue(v, w); err != nil {
				bad = failf("in %s: %v", quoteShort(c.Text), err)
			} else if !m.IsValue() {
				bad = failf("in %s: %s is said to be no value", quoteShort(c.Text), Canon(w))
			}
		}
		for i, k := range children(m) {
			walk(k, w.A[i])
		}
	}
	walk(n, c.Tree)
	return bad
}

// children in written order, without operations
func children(m *miniquery.Node) (s []*miniquery.Node) {
	for _, k := range []*miniquery.Node{m.Left, m.Right, m.Expression} {
		if k != nil {
			s = append(s, k)
		}
	}
	s = append(s, m.Params...)
	return append(s, m.Array...)
}

// ---- C05 ----

type term struct {
	Not   bool   `json:"not,omitempty"`
	Atom  int    `json:"atom"`
	Group *chain `json:"group,omitempty"`
}

type chain struct {
	Terms []term   `json:"terms"`
	Ops   []string `json:"ops,omitempty"` // as written
}

type caseC05 struct {
	Chain chain  `json:"chain"`
	Atoms int    `json:"atoms"`
	Kinds []int  `json:"kinds"`          // of the atoms
	Path  []int  `json:"path,omitempty"` // where the chain is in the tree, from the top
	Text  string `json:"text"`
}

// atom i as written; the kind of condition varies
func (c caseC05) atomTree(i int) *N {
	name := nID("c" + strconv.Itoa(i))
	switch c.Kinds[i%len(c.Kinds)] {
	case 6:
		return nFn("f", name)
	case 7:
		return nRef("r", "c"+strconv.Itoa(i))
	case 8:
		return nCmp(name, "eq", nBool(i%2 == 0))
	case 9:
		return nPred(name, "is not null")
	case 10:
		return nCmp(name, "gt", nID("d"))
	case 11:
		return nCmp(nInt(i), "neq", name)
	case 0:
		return nCmp(name, "eq", nInt(i))
	case 1:
		return nPred(name, "is null")
	case 2:
		return nCmp(name, "in", nArr(nInt(1), nInt(2)))
	case 3:
		return nBetween("between", name, nInt(1), nInt(2))
	case 4:
		return name
	}
	return nCmp(name, "not like", nStr("x"))
}

func genChain(t *rapid.T, d int, next *int) (c chain) {
	n := 1 + pick(t, 6)
	if d < 2 {
		n = 1 + pick(t, 3)
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			c.Ops = append(c.Ops, oneOf(t, []string{"and", "or", "&&", "||", "AND", "Or"}))
		}
		x := term{Not: chance(t, 3)}
		if d > 0 && chance(t, 5) {
			g := genChain(t, d-1, next)
			x.Group = &g
		} else if *next > 0 && chance(t, 6) {
			x.Atom = pick(t, *next) // once more
		} else {
			x.Atom = *next
			*next++
		}
		c.Terms = append(c.Terms, x)
	}
	return
}

func (c chain) write(w *writer, atom func(int) *N) {
	for i, x := range c.Terms {
		if i > 0 {
			w.tok(c.Ops[i-1], false)
			w.space()
		}
		if x.Not {
			w.sb.WriteString(w.keyword("not"))
			w.space()
		}
		if x.Group != nil {
			w.sb.WriteString("(")
			w.sp()
			x.Group.write(w, atom)
			w.sp()
			w.sb.WriteString(")")
			continue
		}
		w.expr(atom(x.Atom), false)
	}
}

func isAndOp(s string) bool { s = strings.ToLower(s); return s == "and" || s == "&&" }

// truth by definition: the terms split at every or, then at every and
func (c chain) truth(env func(int) bool) bool {
	result, conj := false, true
	for i, x := range c.Terms {
		if i > 0 && !isAndOp(c.Ops[i-1]) {
			result, conj = result || conj, true
		}
		var v bool
		if x.Group != nil {
			v = x.Group.truth(env)
		} else {
			v = env(x.Atom)
		}
		conj = conj && v != x.Not
	}
	return result || conj
}

func genC05(t *rapid.T) (c caseC05) {
	if chance(t, 20) {
		// a long chain
		n := 2 + pick(t, 60)
		for i := 0; i < n; i++ {
			if i > 0 {
				c.Chain.Ops = append(c.Chain.Ops, oneOf(t, []string{"and", "or", "&&", "||"}))
			}
			c.Chain.Terms = append(c.Chain.Terms, term{Atom: i % 8, Not: chance(t, 4)})
		}
		c.Atoms = 8
	} else {
		c.Chain = genChain(t, 2, &c.Atoms)
	}
	k := pick(t, 12)
	for i := 0; i < max(1, min(c.Atoms, 12)); i++ {
		c.Kinds = append(c.Kinds, k)
		if k < 6 {
			c.Kinds[i] = pick(t, 12)
		}
	}
	w := &writer{t: t, style: Style(pick(t, 3))}
	w.sp()
	c.Chain.write(w, c.atomTree)
	w.sp()
	c.Text = w.sb.String()
	if !chance(t, 3) {
		return
	}
	// inside of something else
	for i := 1 + pick(t, 3); i > 0; i-- {
		at := 0
		switch pick(t, 6) {
		case 0:
			c.Text = "(" + c.Text + ")" + oneOf(t, []string{" = x", "=1", " is null", " isnull", " in (1,2)", " not in ['a']", " between 1 and 2", " like 'x'"})
		case 1:
			c.Text, at = oneOf(t, []string{"x = ", "1<", "f(1,x = 2) >= ", "x like "})+"("+c.Text+")", 1
		default:
			s := ""
			for at = pick(t, 10); len(strings.Split(s, ";"))-1 < at; {
				s += oneOf(t, []string{"1;", "x;", "'a';", "x = 1;", "g(2);", "[1];", "x or y;", "not x;", "x.y;", "null;"})
			}
			c.Text = "f(" + strings.ReplaceAll(s, ";", ", ") + c.Text + oneOf(t, []string{")", ", x)", ", x, y = 1 and z)", ",)"})
		}
		c.Path = append([]int{at}, c.Path...)
	}
	return
}

func evalC05(c caseC05, r *Rec) error {
	_, got, err := mustParse(c.Text)
	if err != nil {
		return err
	}
	atoms := map[string]int{}
	for i := 0; i < c.Atoms; i++ {
		atoms[Canon(c.atomTree(i))] = i
	}
	ands, ors := 0, 0
	var count func(c chain)
	count = func(c chain) {
		for _, o := range c.Ops {
			if isAndOp(o) {
				ands++
			} else {
				ors++
			}
		}
		for _, x := range c.Terms {
			if x.Group != nil {
				count(*x.Group)
			}
		}
	}
	count(c.Chain)
	r.NonTrivial(ands+ors >= 2)
	if ands > 0 && ors > 0 {
		r.Label("mixes and with or")
	}
	// compile the tree to a function over atoms
	var bad error
	var comp func(n *N) func(env func(int) bool) bool
	comp = func(n *N) func(func(int) bool) bool {
		if i, ok := atoms[Canon(n)]; ok {
			return func(env func(int) bool) bool { return env(i) }
		}
		switch n.K {
		case "paren":
			return comp(n.A[0])
		case "not":
			f := comp(n.A[0])
			return func(env func(int) bool) bool { return !f(env) }
		case "logic":
			f, g := comp(n.A[0]), comp(n.A[1])
			if n.Op == "and" {
				return func(env func(int) bool) bool { return f(env) && g(env) }
			}
			if n.Op == "or" {
				return func(env func(int) bool) bool { return f(env) || g(env) }
			}
		}
		bad = failf("%s has an unexpected part %s", quoteShort(c.Text), Canon(n))
		return func(func(int) bool) bool { return false }
	}
	for _, i := range c.Path {
		for got.K == "paren" {
			got = got.A[0]
		}
		if i >= len(got.A) {
			return failf("%s lost the operand %d of %s", quoteShort(c.Text), i, Canon(got))
		}
		got = got.A[i]
	}
	if len(c.Path) > 0 {
		r.Label("inside a call or a comparison")
	}
	f := comp(got)
	if bad != nil {
		return bad
	}
	check := func(bits uint64) error {
		env := func(i int) bool { return bits>>uint(i%64)&1 == 1 }
		if w, g := c.Chain.truth(env), f(env); w != g {
			return failf("%s is %v, want %v, when the conditions are %b (lowest first); its tree is %s", quoteShort(c.Text), g, w, bits, Canon(got))
		}
		return nil
	}
	if c.Atoms <= 10 {
		for b := uint64(0); b < 1<<c.Atoms; b++ {
			if err := check(b); err != nil {
				return err
			}
		}
	} else {
		r.Label("more than 10 conditions")
		x := uint64(88172645463325252)
		for i := 0; i < 1024; i++ {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			if err := check(x); err != nil {
				return err
			}
		}
		for i := 0; i < 64; i++ {
			if err := check(1 << i); err != nil {
				return err
			}
			if err := check(^uint64(0) ^ 1<<i); err != nil {
				return err
			}
		}
	}
	// left to right within one kind
	var right func(n *N) error
	right = func(n *N) error {
		if n.K == "logic" && n.A[1].K == "logic" && n.A[1].Op == n.Op {
			return failf("%s groups %s from right to left: %s", quoteShort(c.Text), n.Op, Canon(n))
		}
		for _, a := range n.A {
			if err := right(a); err != nil {
				return err
			}
		}
		return nil
	}
	return right(got)
}

// ---- C07 ----

func genC07(t *rapid.T) caseTree {
	n := genTree(t)
	return caseTree{n, Write(t, n, Style(pick(t, 3)))}
}

func evalC07(c caseTree, r *Rec) error {
	labelTree(r, c.Tree)
	r.NonTrivial(c.Tree.size() >= 3)
	n, a, err := mustParse(c.Text)
	if err != nil {
		return err
	}
	var s, s2 string
	if crash := guard(func() { s = miniquery.Build(n) }); crash != nil {
		return failf("printing %s crashed: %v", quoteShort(c.Text), crash)
	}
	n2, err, crash := parse(s)
	if crash != nil || err != nil {
		return failf("%s is printed as %s, which is refused: %v %v", quoteShort(c.Text), quoteShort(s), err, crash)
	}
	if x, y := Canon(a), Canon(FromNode(n2)); x != y {
		return failf("%s is printed as %s, which has the tree\n %s\nwant\n %s", quoteShort(c.Text), quoteShort(s), y, x)
	}
	if crash := guard(func() { s2 = miniquery.Build(n2) }); crash != nil || s2 != s {
		return failf("%s is printed as %s and then as %s (%v)", quoteShort(c.Text), quoteShort(s), quoteShort(s2), crash)
	}
	return nil
}

// ---- C08 ----

type caseC08 struct {
	Entries []entry `json:"entries"`
	Nil     bool    `json:"nil,omitempty"`
}

// entry of a list, a blank one has no tree
type entry struct {
	Tree *N     `json:"tree,omitempty"`
	Text string `json:"text"`
}

var blanks = []string{"", " ", "\t", "\n", "  \r\n ", " \n\t\n"}

func genC08(t *rapid.T) (c caseC08) {
	n := oneOf(t, []int{2, 3, 4, 5, 1, 0})
	if chance(t, 30) {
		n = min(genSize(t), 200)
	} else if pick(t, 10000) == 9999 {
		n = 1 + pick(t, 3000)
	}
	c.Nil = n == 0 && pick(t, 2) == 1
	for i := 0; i < n; i++ {
		if chance(t, 4) {
			c.Entries = append(c.Entries, entry{Text: oneOf(t, blanks)})
			continue
		}
		if i >= 200 {
			c.Entries = append(c.Entries, c.Entries[i-100])
			continue
		}
		var x *N
		if n > 10 {
			x = Fix(nLogic(nCmp(nID(genName(t)), "eq", genLit(t)), oneOf(t, []string{"or", "and"}), nID("b")))
		} else {
			x = genTree(t)
		}
		c.Entries = append(c.Entries, entry{x, Write(t, x, Style(pick(t, 3)))})
	}
	return
}

func evalC08(c caseC08, r *Rec) error {
	list := []string{}
	var trees []*N
	for _, e := range c.Entries {
		list = append(list, e.Text)
		if e.Tree != nil {
			trees = append(trees, e.Tree)
		}
	}
	if c.Nil {
		list = nil
	}
	saved := append([]string(nil), list...)
	var s string
	if crash := guard(func() { s = miniquery.Join(list) }); crash != nil {
		return failf("joining %q crashed: %v", list, crash)
	}
	for i := range saved {
		if list[i] != saved[i] {
			return failf("joining %q changed entry %d", saved, i)
		}
	}
	r.NonTrivial(len(trees) >= 2)
	r.Label("%d entries, %d blank", min(len(list), 6), min(len(list)-len(trees), 6))
	if len(list) == 1 {
		if s != list[0] {
			return failf("joining the single %s gives %s", quoteShort(list[0]), quoteShort(s))
		}
		return nil
	}
	if len(trees) == 0 {
		if s != "" {
			return failf("joining %q gives %s, want nothing", list, quoteShort(s))
		}
		return nil
	}
	_, got, err := mustParse(s)
	if err != nil {
		return failf("joining %q: %v", list, err)
	}
	var want *N
	for i, x := range trees {
		if i == 0 {
			want = nParen(x)
		} else {
			want = nLogic(want, "and", nParen(x))
		}
	}
	if g := Canon(got); g != Canon(want) && !(len(trees) == 1 && g == Canon(trees[0])) {
		return failf("joining %q gives %s with the tree\n %s\nwant\n %s", list, quoteShort(s), g, Canon(want))
	}
	return nil
}

// ---- C09 ----

var callbackKinds = []string{"compare", "logic", "between", "func", "pred", "paren", "not", "id", "ref", "op", "value"}

type caseC09 struct {
	Tree    *N       `json:"tree"`
	Text    string   `json:"text"`
	Stop    []string `json:"stop,omitempty"`    // replaced and does not descend
	Descend []string `json:"descend,omitempty"` // replaced by a function that descends itself
	Wrap    []string `json:"wrap,omitempty"`    // replaced after Init by a function that calls the one it replaces
	FailAt  int      `json:"failAt"`            // the callback call that returns an error, -1 for none
	Done    bool     `json:"done,omitempty"`    // the context is cancelled
	Again   int      `json:"again,omitempty"`   // 1: the visitor has visited the tree before, 2: another one, 3: Init is called twice
	Other   string   `json:"other,omitempty"`
}

func genC09(t *rapid.T) (c caseC09) {
	c.Tree = genTree(t)
	c.Text = Write(t, c.Tree, Style(pick(t, 2)))
	leaves := map[string]bool{"id": true, "ref": true, "op": true}
	mode := pick(t, 5)
	for _, k := range callbackKinds {
		switch {
		case mode == 4:
			if pick(t, 4) > 0 {
				c.Wrap = append(c.Wrap, k)
			} else if pick(t, 4) == 3 {
				c.Descend = append(c.Descend, k)
			}
		case mode == 0 && pick(t, 2) == 0:
		case leaves[k]:
			c.Stop = append(c.Stop, k)
		case mode == 1 && chance(t, 3) || mode == 3 && chance(t, 5):
			c.Stop = append(c.Stop, k)
		case mode == 2 || pick(t, 2) == 1:
			c.Descend = append(c.Descend, k)
		}
	}
	c.FailAt = -1
	if pick(t, 3) == 2 {
		c.FailAt = pick(t, 20)
	}
	c.Done = chance(t, 12)
	if chance(t, 4) {
		c.Again = 1 + pick(t, 3)
		if c.Again == 2 {
			c.Other = Write(t, genTree(t), Loose)
		}
	}
	return
}

func kindOf(n *N) string {
	switch n.K {
	case "cmp":
		return "compare"
	case "int", "str", "bool", "null", "arr":
		return "value"
	}
	return n.K
}

// order is the visit order of n and what is below it, operations included
func visitChildren(n *N) (s []*N) {
	op := &N{K: "op", S: n.Op}
	switch n.K {
	case "cmp", "logic":
		return []*N{n.A[0], op, n.A[1]}
	case "pred":
		return []*N{n.A[0], op}
	case "between":
		return []*N{n.A[0], op, n.A[1], n.A[2]}
	}
	return n.A
}

func visitLabel(n *N) string {
	if n.K == "op" {
		return "op <" + n.S + ">"
	}
	return kindOf(n) + " " + Canon(n)
}

var errStop = errors.New("stop here")

func callbacks09(v *miniquery.Visitor) map[string]*miniquery.VisitFunc {
	return map[string]*miniquery.VisitFunc{"compare": &v.BinaryExpression, "logic": &v.LogicExpression, "between": &v.BetweenExpression,
		"func": &v.FunctionExpression, "pred": &v.PredicatesExpression, "paren": &v.ParenthesesExpression, "not": &v.NotExpression,
		"id": &v.IdentifierNode, "ref": &v.ReferenceNode, "op": &v.OperationNode, "value": &v.ValueNode}
}

// canWrap says if callbacks set by Init can be wrapped: they are there, and
// they visit with the callbacks of the moment. Nothing says that they have to.
var canWrap = sync.OnceValue(func() bool {
	n, err := miniquery.Parse("(a = 1)")
	if err != nil {
		return false
	}
	v, calls := &miniquery.Visitor{}, 0
	v.Init()
	for _, f := range callbacks09(v) {
		f, old := f, *f
		if old == nil {
			return false
		}
		*f = func(ctx context.Context, n *miniquery.Node) error { calls++; return old(ctx, n) }
	}
	crash := guard(func() { err = v.Visit(context.Background(), n) })
	return crash == nil && err == nil && calls >= 4
})

func evalC09(c caseC09, r *Rec) error {
	root, got, err := mustParse(c.Text)
	if err != nil {
		return err
	}
	if err := sameTree(c.Text, got, c.Tree); err != nil {
		return err
	}
	replaced := map[string]bool{}
	stop := map[string]bool{}
	for _, k := range c.Stop {
		replaced[k], stop[k] = true, true
	}
	for _, k := range c.Descend {
		replaced[k] = true
	}
	if len(c.Wrap) > 0 && !canWrap() {
		c.Wrap = nil
	}
	for _, k := range c.Wrap {
		replaced[k] = true
	}
	// expected calls
	var want []string
	var expect func(n *N)
	total := 0
	expect = func(n *N) {
		total++
		if replaced[kindOf(n)] {
			want = append(want, visitLabel(n))
			if stop[kindOf(n)] {
				return
			}
		}
		for _, k := range visitChildren(n) {
			expect(k)
		}
	}
	expect(c.Tree)
	r.NonTrivial(len(want) >= 2)
	if len(c.Wrap) > 0 {
		r.Label("callbacks wrapped")
	}
	r.Label("visitor used before: %d", c.Again)
	r.Label("%d of %d callbacks replaced", len(replaced), len(callbackKinds))
	wantErr := false
	if c.FailAt >= 0 && c.FailAt < len(want) {
		want = want[:c.FailAt+1]
		wantErr = true
		r.Label("stopped by an error")
	}
	if len(want) > 0 && total >= 8 {
		r.Label("8 visits and more")
	}

	ctxKey := new(int)
	ctx := context.WithValue(context.Background(), ctxKey, 1)
	if c.Done {
		cancelled, cancel := context.WithCancel(ctx)
		cancel()
		ctx = cancelled
		r.Label("cancelled context")
	}
	var calls []string
	var ctxBad bool
	v := &miniquery.Visitor{}
	seen := func(kind string, ctx context.Context, n *miniquery.Node) error {
		if ctx == nil || ctx.Value(ctxKey) != 1 {
			ctxBad = true
		}
		var l string
		if n.Type == miniquery.OperationNodeType {
			l = "op <" + n.Operation + ">"
		} else {
			l = visitLabel(FromNode(n))
		}
		if !strings.HasPrefix(l, kind+" ") {
			l = kind + " callback for " + l
		}
		calls = append(calls, l)
		if len(calls)-1 == c.FailAt {
			return errStop
		}
		return nil
	}
	cb := func(kind string) miniquery.VisitFunc {
		return func(ctx context.Context, n *miniquery.Node) error {
			if err := seen(kind, ctx, n); err != nil {
				return err
			}
			if stop[kind] {
				return nil
			}
			var s []*miniquery.Node
			switch kind {
			case "compare", "logic":
				s = []*miniquery.Node{n.Left, n.Op, n.Right}
			case "pred":
				s = []*miniquery.Node{n.Left, n.Op}
			case "between":
				s = append([]*miniquery.Node{n.Left, n.Op}, n.Params...)
			case "func":
				s = n.Params
			case "paren", "not":
				s = []*miniquery.Node{n.Expression}
			case "value":
				s = n.Array
			}
			for _, k := range s {
				if err := v.Visit(ctx, k); err != nil {
					return err
				}
			}
			return nil
		}
	}
	fields := callbacks09(v)
	for _, k := range append(append([]string{}, c.Stop...), c.Descend...) {
		*fields[k] = cb(k)
	}
	if crash := guard(func() {
		v.Init()
		if c.Again == 3 {
			v.Init()
		}
		for _, k := range c.Wrap {
			f, old := fields[k], *fields[k]
			*f = func(ctx context.Context, n *miniquery.Node) error {
				if err := seen(k, ctx, n); err != nil {
					return err
				}
				return old(ctx, n)
			}
		}
		switch c.Again {
		case 1:
			_ = v.Visit(ctx, root)
		case 2:
			if other, err := miniquery.Parse(c.Other); err == nil {
				_ = v.Visit(ctx, other)
			}
		}
		calls = nil
		err = v.Visit(ctx, root)
	}); crash != nil {
		return failf("visiting %s with %v %v crashed: %v", quoteShort(c.Text), c.Stop, c.Descend, crash)
	}
	if ctxBad {
		return failf("visiting %s: a callback did not get the context", quoteShort(c.Text))
	}
	// a visit may end early then, but not as if it was complete
	if c.Done && errors.Is(err, context.Canceled) {
		return nil
	}
	if !reflect.DeepEqual(calls, want) && len(calls)+len(want) > 0 {
		return failf("visiting %s, replaced %v (descending %v), error at %d: calls\n %s\nwant\n %s", quoteShort(c.Text), c.Stop, c.Descend, c.FailAt, strings.Join(calls, "\n "), strings.Join(want, "\n "))
	}
	if wantErr && !errors.Is(err, errStop) {
		return failf("visiting %s: the error of the callback is lost, got %v", quoteShort(c.Text), err)
	}
	if !wantErr && err != nil {
		return failf("visiting %s: error %v", quoteShort(c.Text), err)
	}
	if after := FromNode(root); Canon(after) != Canon(c.Tree) {
		return failf("visiting %s changed the tree", quoteShort(c.Text))
	}
	return nil
}

// ---- C10 ----

type caseC10 struct {
	Texts  []string `json:"texts"`
	Order  []int    `json:"order"`  // which text is parsed when
	Mutate []int    `json:"mutate"` // what is done to the tree afterwards
	Par    int      `json:"par"`    // goroutines
}

// genNear changes one place of a text, as a careless comparison would not see
func genNear(t *rapid.T, s string) string {
	swap := func(s, a, b string) string {
		var at []int
		for i := 0; i+len(a) <= len(s); i++ {
			if s[i:i+len(a)] == a {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			return s
		}
		i := oneOf(t, at)
		return s[:i] + b + s[i+len(a):]
	}
	switch pick(t, 8) {
	case 0, 1:
		return swap(s, " ", "  ")
	case 2:
		return swap(s, " ", "\t")
	case 3:
		return " " + s
	case 4:
		return s + oneOf(t, []string{" ", "\n", "\r", " -- x\n", ")", "'"})
	case 5:
		return oneOf(t, []func(string) string{strings.ToUpper, strings.ToLower})(s)
	case 6:
		if at := wordRe.FindAllStringIndex(s, -1); len(at) > 0 {
			i := oneOf(t, at)
			w := s[i[0]:i[1]]
			if u := strings.ToUpper(w); u != w {
				w = u
			} else {
				w = strings.ToLower(w)
			}
			return s[:i[0]] + w + s[i[1]:]
		}
	case 7:
		if at := numberRe.FindAllStringIndex(s, -1); len(at) > 0 {
			i := oneOf(t, at)
			return s[:i[0]] + oneOf(t, []string{"0", "1", "7", "12"}) + s[i[1]:]
		}
	}
	return swap(s, "'", `"`)
}

func genC10(t *rapid.T) (c caseC10) {
	n := 1 + pick(t, 4)
	for i := 0; i < n; i++ {
		if chance(t, 4) {
			c.Texts = append(c.Texts, genMutant(t))
		} else {
			c.Texts = append(c.Texts, Write(t, genTree(t), Style(pick(t, 3))))
		}
	}
	if pick(t, 2) == 1 {
		// and almost the same
		s := c.Texts[pick(t, n)]
		for i := 1 + pick(t, 2); i > 0; i-- {
			s = genNear(t, s)
			if pick(t, 2) == 0 {
				c.Texts = append(c.Texts, s)
			} else {
				c.Texts = append([]string{s}, c.Texts...)
			}
		}
		n = len(c.Texts)
	}
	m := n + pick(t, 6)
	for i := 0; i < m; i++ {
		if i < n {
			c.Order = append(c.Order, i)
		} else {
			c.Order = append(c.Order, pick(t, n))
		}
		c.Mutate = append(c.Mutate, pick(t, 8))
	}
	c.Par = oneOf(t, []int{2, 4, 8})
	return
}

// deepCopy of a tree
func deepCopy(n *miniquery.Node) *miniquery.Node {
	if n == nil {
		return nil
	}
	c := *n
	c.Left, c.Right, c.Op, c.Expression = deepCopy(n.Left), deepCopy(n.Right), deepCopy(n.Op), deepCopy(n.Expression)
	list := func(s []*miniquery.Node) (r []*miniquery.Node) {
		if s == nil {
			return nil
		}
		r = []*miniquery.Node{}
		for _, v := range s {
			r = append(r, deepCopy(v))
		}
		return
	}
	c.Params, c.Array = list(n.Params), list(n.Array)
	if n.Names != nil {
		c.Names = append([]string{}, n.Names...)
	}
	return &c
}

// spoil changes every part of a tree, as a caller may
func spoil(n *miniquery.Node) {
	if n == nil {
		return
	}
	for _, k := range append(children(n), n.Op) {
		spoil(k)
	}
	for i := range n.Names {
		n.Names[i] = "spoiled"
	}
	n.Str, n.Int, n.Bool, n.Name, n.Operation = "spoiled", -1, !n.Bool, "spoiled", "spoiled"
	n.Params, n.Array = append(n.Params, n), append(n.Array, n)
	n.Left, n.Right, n.Op, n.Expression = nil, nil, nil, nil
	n.Type = "spoiled"
}

type outcome struct {
	node  *miniquery.Node
	err   string
	crash error
}

func (o outcome) same(p outcome) bool {
	return o.err == p.err && (o.node == nil) == (p.node == nil) && reflect.DeepEqual(o.node, p.node)
}

func (o outcome) String() string {
	if o.node == nil {
		return "refused: " + o.err
	}
	return Canon(FromNode(o.node))
}

func parseOutcome(s string) (o outcome) {
	n, err, crash := parse(s)
	o.node, o.crash = n, crash
	if err != nil {
		o.err = err.Error()
	}
	return
}

func evalC10(c caseC10, r *Rec) error {
	// at the same time, and before anything else has been parsed
	results := make([][]outcome, c.Par)
	printed := make([][]string, c.Par)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < c.Par; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i := range c.Texts {
				k := (i + g) % len(c.Texts)
				o := parseOutcome(c.Texts[k])
				results[g] = append(results[g], o)
				s := ""
				if o.node != nil {
					_ = guard(func() { s = miniquery.Build(o.node) })
				}
				printed[g] = append(printed[g], s)
			}
		}()
	}
	close(start)
	wg.Wait()
	first := map[int]outcome{}
	for i, k := range c.Order {
		o := parseOutcome(c.Texts[k])
		if o.crash != nil {
			return failf("parsing %s crashed: %v", quoteShort(c.Texts[k]), o.crash)
		}
		// the reading known beforehand
		if ref, ok := refParse(c.Texts[k]); ok != (o.node != nil) {
			return failf("%s: a query: %v, but %v", quoteShort(c.Texts[k]), ok, o)
		} else if ok && Canon(ref) != Canon(FromNode(o.node)) {
			return failf("%s after other queries is %v, want %s", quoteShort(c.Texts[k]), o, Canon(ref))
		}
		if f, ok := first[k]; !ok {
			first[k] = outcome{deepCopy(o.node), o.err, nil}
		} else if !f.same(o) {
			return failf("parsing %s again gives\n %v\nbut was\n %v", quoteShort(c.Texts[k]), o, f)
		}
		if o.node == nil {
			continue
		}
		r.NonTrivial(true)
		before := deepCopy(o.node)
		use := func(what string, f func()) error {
			if crash := guard(f); crash != nil {
				return failf("%s of %s crashed: %v", what, quoteShort(c.Texts[k]), crash)
			}
			if !reflect.DeepEqual(before, o.node) {
				return failf("%s changed the tree of %s to %v", what, quoteShort(c.Texts[k]), o)
			}
			return nil
		}
		if err := use("printing", func() { _ = miniquery.Build(o.node); _ = o.node.String(); _ = o.node.Value() }); err != nil {
			return err
		}
		if err := use("visiting", func() { v := &miniquery.Visitor{}; v.Init(); _ = v.Visit(context.Background(), o.node) }); err != nil {
			return err
		}
		switch c.Mutate[i] {
		case 0, 1, 2:
			spoil(o.node)
		case 3:
			// values are the caller's as well
			if v, ok := o.node.Value().([]any); ok {
				for i := range v {
					v[i] = "spoiled"
				}
				if !reflect.DeepEqual(before, o.node) {
					return failf("changing the value of %s changed its tree", quoteShort(c.Texts[k]))
				}
			}
		}
	}
	for g := range results {
		for i, o := range results[g] {
			k := (i + g) % len(c.Texts)
			if o.crash != nil {
				return failf("parsing %s in parallel crashed: %v", quoteShort(c.Texts[k]), o.crash)
			}
			if !first[k].same(o) {
				return failf("parsing %s in parallel gives\n %v\nbut was\n %v", quoteShort(c.Texts[k]), o, first[k])
			}
			if o.node != nil && printed[g][i] != miniquery.Build(first[k].node) {
				return failf("printing %s in parallel gives %s", quoteShort(c.Texts[k]), quoteShort(printed[g][i]))
			}
		}
	}
	// one tree used at the same time
	for k, o := range first {
		if o.node == nil {
			continue
		}
		want := miniquery.Build(o.node)
		out := make([]string, c.Par)
		for g := 0; g < c.Par; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				_ = guard(func() {
					out[g] = miniquery.Build(o.node)
					_ = o.node.String()
					v := &miniquery.Visitor{}
					v.Init()
					_ = v.Visit(context.Background(), o.node)
				})
			}()
		}
		wg.Wait()
		for _, s := range out {
			if s != want {
				return failf("printing the tree of %s in parallel gives %s, want %s", quoteShort(c.Texts[k]), quoteShort(s), quoteShort(want))
			}
		}
	}
	return nil
}

// ---- C31 ----

type caseC31 struct {
	Tree  *N     `json:"tree"`
	Text  string `json:"text"`
	Again string `json:"again"` // the same, written in another way
	Other *N     `json:"other"`
	Text2 string `json:"text2"` // one thing is different
}

// leafChange is n with another name, operator or literal in one place
func leafChange(t *rapid.T, n *N) *N {
	var sites []int
	i := 0
	n.walk(func(x *N) {
		if x.K != "null" && x.K != "not" && x.K != "paren" && (x.K != "arr" || len(x.A) > 0) {
			sites = append(sites, i)
		}
		i++
	})
	if len(sites) == 0 {
		return nil
	}
	site, i := oneOf(t, sites), 0
	var change func(n *N) *N
	change = func(n *N) *N {
		c := *n
		c.A = nil
		here := i == site
		i++
		for _, a := range n.A {
			c.A = append(c.A, change(a))
		}
		if !here {
			return &c
		}
		other := func(s string, pool []string) string {
			for {
				if x := oneOf(t, pool); x != s {
					return x
				}
			}
		}
		switch c.K {
		case "int":
			if c.I++; c.I < 0 {
				c.I = 0
			}
		case "str":
			if c.S == "" || pick(t, 2) == 0 {
				c.S += "a"
			} else {
				c.S = strings.TrimSuffix(c.S, string([]rune(c.S)[len([]rune(c.S))-1:]))
			}
		case "bool":
			c.B = !c.B
		case "id", "func":
			c.S += oneOf(t, []string{"x", "_", "1"})
		case "ref":
			c.Names = append([]string{}, c.Names...)
			if k := pick(t, len(c.Names)+1); k < len(c.Names) {
				c.Names[k] += "x"
			} else {
				c.Names = append(c.Names, "x")
			}
		case "arr":
			c.A = append(c.A, c.A[0])
		case "cmp":
			if c.Op == "in" || c.Op == "not in" {
				c.Op = other(c.Op, []string{"in", "not in"})
			} else {
				c.Op = other(c.Op, cmpOps)
			}
		case "logic":
			c.Op = other(c.Op, []string{"and", "or"})
		case "pred":
			c.Op = other(c.Op, predOps)
		case "between":
			c.Op = other(c.Op, []string{"between", "not between"})
		}
		return &c
	}
	return Fix(change(n))
}

func genC31(t *rapid.T) (c caseC31) {
	c.Tree = genTree(t)
	c.Text = Write(t, c.Tree, Style(pick(t, 2)))
	c.Again = Write(t, c.Tree, Loose)
	if c.Other = leafChange(t, c.Tree); c.Other != nil {
		c.Text2 = Write(t, c.Other, Loose)
	}
	return
}

func evalC31(c caseC31, r *Rec) error {
	root, got, err := mustParse(c.Text)
	if err != nil {
		return err
	}
	if err := sameTree(c.Text, got, c.Tree); err != nil {
		return err
	}
	r.NonTrivial(c.Tree.size() >= 3)
	var check func(n *miniquery.Node) error
	check = func(n *miniquery.Node) error {
		isValue := n.Type == miniquery.ValueNodeType
		isExpr := !isValue && n.Type != miniquery.IdentifierNodeType && n.Type != miniquery.ReferenceNodeType && n.Type != miniquery.OperationNodeType
		if n.IsValue() != isValue {
			return failf("%s: the %s says %v to being a value", quoteShort(c.Text), n.Type, n.IsValue())
		}
		if n.IsExpression() != isExpr {
			return failf("%s: the %s says %v to being an expression", quoteShort(c.Text), n.Type, n.IsExpression())
		}
		if isValue {
			if err := sameValue(n.Value(), FromNode(n)); err != nil {
				return failf("%s: %v", quoteShort(c.Text), err)
			}
		}
		r.Label("%s", n.Type)
		parts := children(n)
		if n.Op != nil {
			parts = append(parts, n.Op)
		}
		for _, x := range parts {
			if err := check(x); err != nil {
				return err
			}
		}
		return nil
	}
	describe := func(text string, n *miniquery.Node) (s string, err error) {
		if crash := guard(func() { s = n.String() }); crash != nil {
			err = failf("describing %s crashed: %v", quoteShort(text), crash)
		}
		return
	}
	if crash := guard(func() { err = check(root) }); crash != nil {
		return failf("%s: asking a node crashed: %v", quoteShort(c.Text), crash)
	}
	if err != nil {
		return err
	}
	s, err := describe(c.Text, root)
	if err != nil {
		return err
	}
	if !strings.HasPrefix(s, string(root.Type)) {
		return failf("%s, a %s, is described as %s", quoteShort(c.Text), root.Type, quoteShort(s))
	}
	again, _, err := mustParse(c.Again)
	if err != nil {
		return err
	}
	s1, err := describe(c.Again, again)
	if err != nil {
		return err
	}
	if s1 != s {
		return failf("%s and %s are the same but described as\n %s\n %s", quoteShort(c.Text), quoteShort(c.Again), quoteShort(s), quoteShort(s1))
	}
	if c.Other == nil || Canon(c.Other) == Canon(c.Tree) {
		return nil
	}
	other, _, err := mustParse(c.Text2)
	if err != nil {
		return err
	}
	s2, err := describe(c.Text2, other)
	if err != nil {
		return err
	}
	if s2 == s {
		return failf("%s and %s are different but both described as\n %s", quoteShort(c.Text), quoteShort(c.Text2), quoteShort(s))
	}
	return nil
}

func init() {
	register(Prop{ID: "C31", Quick: 300000, Thor: 3000000,
		Rule: "random trees, the same written in another way, and with another name, operator or literal in one place; non-trivial: the tree has 3 nodes or more"}, genC31, evalC31)
	register(Prop{ID: "C01", Quick: 120000, Thor: 700000, CPU: 6 * time.Second,
		Rule: "token soups, mutated queries, random bytes and repeated or nested pathological units up to 256 KiB; non-trivial: accepted, or refused and longer than 3 bytes"}, genC01, evalC01)
	register(Prop{ID: "C02", Quick: 800000, Thor: 6000000,
		Rule: "random trees of the language written with random spelling and layout; non-trivial: the tree has 3 nodes or more"}, genC02, evalC02)
	p := register(Prop{ID: "C03", Quick: 800000, Thor: 5000000,
		Rule: "all short token sequences, token soups, mutated queries and queries with reserved names; non-trivial: a query, or refused and 3 bytes or longer"}, genC03, evalC03)
	p.enum = enumC03
	register(Prop{ID: "C04", Quick: 800000, Thor: 8000000,
		Rule: "literals of all types and boundary values in every position of a query; non-trivial: everything but a bare boolean or null"}, genC04, evalC04)
	register(Prop{ID: "C05", Quick: 1000000, Thor: 4000000,
		Rule: "chains of conditions with and, or, not and groups, checked over all truth assignments; non-trivial: 2 operators or more"}, genC05, evalC05)
	register(Prop{ID: "C07", Quick: 600000, Thor: 5000000,
		Rule: "random trees written with random spelling and layout, printed and parsed again; non-trivial: the tree has 3 nodes or more"}, genC07, evalC07)
	register(Prop{ID: "C08", Quick: 400000, Thor: 3000000,
		Rule: "lists of 0 to 3000 valid queries and blank entries; non-trivial: 2 queries or more"}, genC08, evalC08)
	register(Prop{ID: "C09", Quick: 400000, Thor: 4000000,
		Rule: "random trees, random subsets of replaced callbacks and an error at a random call; non-trivial: 2 expected calls or more"}, genC09, evalC09)
	register(Prop{ID: "C10", Quick: 8000, Thor: 60000, Race: true, Procs: 4,
		Rule: "sequences of queries parsed, used, spoiled and parsed again, then parsed and used in 2 to 8 goroutines under the race detector; non-trivial: at least one query is valid"}, genC10, evalC10)
}
