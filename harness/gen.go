package main

import (
	"math"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

var pickGens = map[int]*rapid.Generator[int]{}

// pick draws from 0..n-1
func pick(t *rapid.T, n int) int {
	if n <= 1 {
		return 0
	}
	g := pickGens[n]
	if g == nil {
		g = rapid.IntRange(0, n-1)
		pickGens[n] = g
	}
	return g.Draw(t, "")
}

func oneOf[T any](t *rapid.T, s []T) T { return s[pick(t, len(s))] }

func chance(t *rapid.T, n int) bool { return pick(t, n) == n-1 }

// words the language or the backends give a meaning to
var reserved = []string{
	"and", "or", "in", "is", "like", "between", "null", "true", "false", "isnull", "notnull",
	"eq", "neq", "gt", "gte", "lt", "lte", "AND", "OR", "Like", "IN", "NULL", "TRUE", "FALSE", "Null", "True", "False", "Between",
}

func isReserved(s string) bool {
	switch strings.ToLower(s) {
	case "and", "or", "in", "is", "like", "between", "null", "true", "false", "isnull", "notnull", "not",
		"eq", "neq", "gt", "gte", "lt", "lte":
		return true
	}
	return false
}

var nameHeads = []string{
	"a", "b", "x", "id", "name", "createdAt", "created_at", "ID", "userID", "z9", "a_", "A__1",
	"order", "android", "note", "nothing", "island", "index", "inner", "liked", "likely", "betweens", "nullable", "nullor",
	"truest", "falsey", "eqs", "gtx", "ltx", "neqx", "isnulls", "notnulls", "date", "has_edge", "select", "null_", "true1",
}

// genName draws an identifier; reserved words are left out.
func genName(t *rapid.T) string {
	switch pick(t, 8) {
	case 7:
		if len(dictIdents) > 0 {
			s := oneOf(t, dictIdents)
			switch pick(t, 6) {
			case 3:
				s += oneOf(t, []string{"_", "", "X"}) + oneOf(t, nameHeads)
			case 4:
				s = oneOf(t, nameHeads) + oneOf(t, []string{"_", ""}) + s
			case 5:
				w := oneOf(t, nameHeads)
				s += strings.ToUpper(w[:1]) + w[1:]
			}
			if !isReserved(s) && identRe(s) {
				return s
			}
		}
		return "c"
	case 6:
		n := 1 + pick(t, 12)
		if chance(t, 40) {
			n = genSize(t)
		}
		const first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
		const rest = first + "0123456789_"
		b := []byte{first[pick(t, len(first))]}
		if n > 40 {
			return string(b) + strings.Repeat(string(rest[pick(t, len(rest))]), n)
		}
		for len(b) < n {
			b = append(b, rest[pick(t, len(rest))])
		}
		if isReserved(string(b)) {
			b = append(b, '_')
		}
		return string(b)
	case 5:
		if chance(t, 4) {
			return oneOf(t, []string{"True", "False", "Null", "tRUE", "nuLL", "Between"}) // names, as these words have one case
		}
		w := oneOf(t, reserved) + oneOf(t, []string{"_", "1", "x", "X", "s"})
		if isReserved(w) {
			w += "_"
		}
		return w
	}
	return oneOf(t, nameHeads)
}

var sizeBases = []int{2, 3, 4, 7, 8, 10, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 500, 512, 1000, 1023, 1024}

// genSize draws a length, aiming at limits
func genSize(t *rapid.T) int {
	switch pick(t, 3) {
	case 0:
		return 1 + pick(t, 20)
	case 1:
		if len(dictSizes) > 0 {
			n := oneOf(t, dictSizes) + pick(t, 3) - 1
			if n > 1500 {
				n = 1500
			}
			return n
		}
	}
	return oneOf(t, sizeBases) + pick(t, 3) - 1
}

var stringPool = []string{
	"", "a", "abc", "A", "%", "_", "%a%", "a%", "_b", " ", "  x ", "é", "日本語", "✓", "💥", "\u00a0", "\u2028",
	"\n", "\r\n", "\t", "\x00", "\x1b", "\\", "\\n", "\\'", "a\\", "--", "//", "-- x", "/* */", ";", "; drop table t",
	"' or 1=1 --", `" or 1=1 --`, "''", `""`, "x'y", `x"y`, "'", `"`, "null", "NULL", "true", "false", "0", "1", "007", "-1", "1.5", "1e3", "0x10", "1_000", "0000000000000001", "12345678901234567", "9223372036854775808", "4111111111111111",
	"and", "or", "not", "in", "(", ")", "[", "]", "$1", "?", ":x", "@x", "`", "``", "{}", "%s", "%d", "%!s(int=1)", "${x}",
	"%20", "a+b", "&amp;", "&#39;", "<b>", "e\u0301", "\u212b", "\u200b", "a\u00ad", "\\u0041", "\\x41", "\\0", "\\t", "\\%", "\\_", "1,2", "a,b", "NaN", "-0", "+1", "1.0", "yes", "on", "t", "nil", "<nil>",
	"now()", "[1,2]", "#", "*", "a*", "a?b", "a.b", "x\u00a0", "x\u3000", "\x7f", "\u0085", "\v", "\f", "x\n", "x\r", "a\n\nb", "Ünï", "ＡＢ", "a|b", "a&b", "a=b", "@a", "2024-02-30", "24:00:00",
	"2024-01-02", "2024-01-02 03:04:05", "2024-01-02T03:04:05Z", "\ufeff", "�", "ﬀ", "İ", "ß", "K",
}

// forms of strings: 0 is any digit, x any hex digit, a any letter
var stringForms = []string{
	"0", "00", "000", "0000000000", "-0", "+00", "0.0", "00.00", "0e0", "0,000", "0 000", "00%", "$0.00", "0x", "0xxxxxxx", "#xxxxxx",
	"xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "0.0.0.0", "000.00.0.000", "a@a.aa", "aaa://aa.aa/aa?a=0", "/aa/a.aaa", "a:\\aa",
	"0000-00-00", "0000/00/00", "00.00.0000", "00/00/0000", "0000-00-00T00:00:00Z", "0000-00-00T00:00:00.000+00:00", "0000-00-00 00:00", "00:00", "00:00:00", "0d", "00h00m", "aaa 0, 0000", "00000000T000000Z",
	"a", "aa", "Aaaa", "AA", "aA", "a_a", "a-a", "a a", "a.a.a", "a_0", "0a", "+00 000 000", "(000) 000-0000", "a,a", "a=0", "a:0", "%a_", "{a}", "[0]", "<a>", "'a'", "`a`",
}

func genForm(t *rapid.T) string {
	b := []byte(oneOf(t, stringForms))
	for i, c := range b {
		switch c {
		case '0':
			b[i] = '0' + byte(pick(t, 10))
		case 'x':
			b[i] = "0123456789abcdefABCDEF"[pick(t, 22)]
		case 'a':
			b[i] = 'a' + byte(pick(t, 26))
		case 'A':
			b[i] = 'A' + byte(pick(t, 26))
		}
	}
	return string(b)
}

// genStr draws the content of a string literal: valid UTF-8 without one of the quotes
func genStr(t *rapid.T) string {
	var s string
	switch pick(t, 7) {
	case 6:
		s = genForm(t)
	case 3:
		n := pick(t, 9)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteString(oneOf(t, stringPool))
		}
		s = sb.String()
	case 4:
		if len(dictStrings) > 0 {
			s = oneOf(t, dictStrings)
			switch pick(t, 5) {
			case 3:
				s = oneOf(t, stringPool) + s
			case 4:
				s += oneOf(t, stringPool)
			}
		}
	case 5:
		switch pick(t, 3) {
		case 0:
			s = string(rune(pick(t, 128)))
		case 1:
			n := pick(t, 8)
			for i := 0; i < n; i++ {
				s += string(genRune(t))
			}
		case 2:
			s = strings.Repeat(oneOf(t, stringPool), 1+genSize(t))
			if len(s) > 20000 {
				s = s[:20000]
				s = strings.ToValidUTF8(s, "")
			}
		}
	default:
		s = oneOf(t, stringPool)
	}
	if strings.Contains(s, `'`) && strings.Contains(s, `"`) {
		s = strings.ReplaceAll(s, []string{`"`, `'`}[pick(t, 2)], "")
	}
	return s
}

func genRune(t *rapid.T) rune {
	hi := oneOf(t, []int{0x7f, 0xff, 0x7ff, 0xd7ff, 0x1f6ff, 0x10ffff})
	r := rune(pick(t, hi+1))
	if r >= 0xd800 && r <= 0xdfff {
		r = 0xfffd
	}
	return r
}

var intPool = []int{
	0, 1, 2, 3, 7, 9, 10, 11, 99, 100, 101, 127, 128, 255, 256, 999, 1000, 1024, 32767, 32768, 65535, 65536,
	1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1<<62 - 1, 1 << 62,
	math.MaxInt64 - 1, math.MaxInt64, 1000000000000000000, 999999999999999999, 9000000000000000000,
}

func genInt(t *rapid.T) int {
	switch pick(t, 5) {
	case 0:
		return pick(t, 10)
	case 1:
		if len(dictInts) > 0 {
			v := oneOf(t, dictInts) + pick(t, 3) - 1
			if v < 0 {
				v = 0
			}
			return v
		}
	case 2:
		// any number of digits
		n := 1 + pick(t, 18)
		s := strconv.Itoa(1 + pick(t, 9))
		for len(s) < n {
			s += strconv.Itoa(pick(t, 10))
		}
		v, _ := strconv.Atoi(s)
		return v
	case 3:
		v := 1<<pick(t, 63) + pick(t, 3) - 1
		if v < 0 {
			v = math.MaxInt64
		}
		return v
	}
	return oneOf(t, intPool)
}

func genLit(t *rapid.T) *N {
	switch pick(t, 6) {
	case 0, 1:
		return nInt(genInt(t))
	case 2, 3:
		return nStr(genStr(t))
	case 4:
		return nBool(pick(t, 2) == 1)
	}
	return nNull()
}

func genArr(t *rapid.T) *N {
	n := pick(t, 4)
	if chance(t, 30) {
		n = genSize(t)
		if n > 40 {
			return nArr(repeatLit(t, n)...)
		}
	}
	a := nArr()
	for i := 0; i < n; i++ {
		a.A = append(a.A, genLit(t))
	}
	return a
}

// repeatLit makes a long list from few draws
func repeatLit(t *rapid.T, n int) []*N {
	k := 1 + pick(t, 3)
	var base []*N
	for i := 0; i < k; i++ {
		base = append(base, genLit(t))
	}
	var a []*N
	for i := 0; i < n; i++ {
		c := *base[i%k]
		if c.K == "int" && c.I < 1<<60 {
			c.I += i
		}
		a = append(a, &c)
	}
	return a
}

func genValue(t *rapid.T) *N {
	if chance(t, 5) {
		return genArr(t)
	}
	return genLit(t)
}

// treeGen draws any tree of the language
type treeGen struct {
	name    func(t *rapid.T) string
	ref     bool
	fn      bool
	depth   int
	noBare  bool
	emptyOK bool
}

func defaultTreeGen(depth int) *treeGen {
	return &treeGen{name: genName, ref: true, fn: true, depth: depth}
}

func (g *treeGen) primary(t *rapid.T, d int) *N {
	k := pick(t, 10)
	switch {
	case k <= 3:
		return nID(g.name(t))
	case k <= 5:
		return genLit(t)
	case k == 6:
		return genArr(t)
	case k == 7:
		n := 2 + pick(t, 2)
		if chance(t, 20) {
			n = 2 + pick(t, 30)
		}
		var names []string
		for i := 0; i < n; i++ {
			names = append(names, g.name(t))
		}
		return nRef(names...)
	case k == 8 && d > 0:
		n := pick(t, 4)
		if chance(t, 30) {
			n = pick(t, 40)
		}
		f := nFn(g.name(t))
		for i := 0; i < n; i++ {
			if n > 6 {
				f.A = append(f.A, genLit(t))
			} else {
				f.A = append(f.A, g.expr(t, d-1))
			}
		}
		return f
	case d > 0:
		return nParen(g.expr(t, d-1))
	}
	return nID(g.name(t))
}

func (g *treeGen) expr(t *rapid.T, d int) *N {
	if d <= 0 {
		return g.primary(t, 0)
	}
	switch pick(t, 9) {
	case 0, 1:
		return nCmp(g.expr(t, d-2), oneOf(t, cmpOps), g.expr(t, d-2))
	case 2:
		return nLogic(g.expr(t, d-1), oneOf(t, []string{"and", "or"}), g.expr(t, d-1))
	case 3:
		return nCmp(g.expr(t, d-2), oneOf(t, []string{"in", "not in"}), genArr(t))
	case 4:
		return nPred(g.expr(t, d-2), oneOf(t, predOps))
	case 5:
		return nBetween(oneOf(t, []string{"between", "not between"}), g.expr(t, d-2), genValue(t), genValue(t))
	case 6:
		return nNot(g.expr(t, d-1))
	case 7:
		// a chain without parentheses
		n := 2 + pick(t, 4)
		x := g.expr(t, d-2)
		for i := 0; i < n; i++ {
			x = nLogic(x, oneOf(t, []string{"and", "or"}), g.expr(t, d-2))
		}
		return x
	}
	return g.primary(t, d)
}

// genTree draws a tree the grammar can produce, sometimes a long or deep one
func genTree(t *rapid.T) *N {
	g := defaultTreeGen(1 + pick(t, 5))
	n := g.expr(t, g.depth)
	if chance(t, 25) {
		n = stretch(t, n)
	}
	if chance(t, 5) {
		n = repeat(t, n, true)
	}
	return Fix(n)
}

// repeat makes operands of a tree equal, or nearly equal, to their neighbours;
// all of them, or only those of and and or
func repeat(t *rapid.T, n *N, all bool) *N {
	return n.mapTree(func(n *N) *N {
		if pick(t, 2) == 0 {
			return n
		}
		switch {
		case n.K == "logic":
			x := n.A[0]
			if x.K == "logic" && pick(t, 2) == 1 {
				x = oneOf(t, x.A)
			}
			if x.size() > 12 {
				return n
			}
			x = nearTree(t, x)
			switch pick(t, 5) {
			case 0:
				x = nNot(x)
			case 1:
				x = nLogic(x, oneOf(t, []string{"and", "or"}), n.A[1])
			}
			n.A[1] = x
		case all && (n.K == "cmp" || n.K == "between" || n.K == "arr" || n.K == "func") && len(n.A) > 1:
			k := pick(t, len(n.A)-1)
			if n.K == "between" {
				k = 1
			}
			if x := n.A[k]; x.size() <= 12 && n.Op != "in" && n.Op != "not in" {
				n.A[k+1] = x.mapTree(func(n *N) *N { return n })
			}
		}
		return n
	})
}

// stretch makes a tree long or deep
func stretch(t *rapid.T, n *N) *N {
	k := genSize(t)
	if k > 300 {
		k = 300 + k%50
	}
	if n.size() > 30 {
		n = nID("a")
	}
	small := nCmp(nID(genName(t)), "eq", genLit(t))
	other := nPred(nID(genName(t)), "is null")
	switch pick(t, 6) {
	case 0:
		for i := 0; i < k; i++ {
			n = nParen(n)
		}
	case 1:
		for i := 0; i < k; i++ {
			n = nLogic(n, []string{"and", "or"}[i%2], []*N{small, other}[i%2])
		}
	case 2:
		op := oneOf(t, []string{"and", "or"})
		for i := 0; i < k; i++ {
			n = nLogic(n, op, small)
		}
	case 3:
		for i := 0; i < k; i++ {
			n = nCmp(n, oneOf(t, cmpOps), nID("b"))
		}
	case 4:
		for i := 0; i < k; i++ {
			n = nFn("f", n)
		}
	case 5:
		for i := 0; i < k; i++ {
			n = nNot(nParen(n))
		}
	}
	return n
}

// replaceAny puts x into any place of a copy of n that takes an operand or a condition
func replaceAny(t *rapid.T, n, x *N) *N {
	type slot struct {
		n *N
		i int
	}
	c := n.mapTree(func(m *N) *N { return m })
	var slots []slot
	c.walk(func(m *N) {
		for i := range m.A {
			switch {
			case m.K == "arr", m.K == "between" && i > 0, m.K == "cmp" && i == 1 && (m.Op == "in" || m.Op == "not in"),
				m.K == "func" && m.S == "has_edge" && i == 0:
				continue
			}
			slots = append(slots, slot{m, i})
		}
	})
	if len(slots) == 0 {
		return x
	}
	s := slots[pick(t, len(slots))]
	s.n.A[s.i] = x
	return c
}

// genNothing draws a text of white space and comments only; it is not empty
func genNothing(t *rapid.T) string {
	s := ""
	for i := 1 + pick(t, 3); i > 0; i-- {
		s += oneOf(t, []string{" ", "\n", "\t", "\r\n", "  ", "\r", "-- a = 1\n", "// x\n", "--\n"})
	}
	return s
}

// nearTree is n with some literals slightly changed
func nearTree(t *rapid.T, n *N) *N {
	return n.mapTree(func(n *N) *N {
		if n.K != "cmp" {
			return n
		}
		for _, x := range n.A {
			switch {
			case x.K == "str" && pick(t, 2) == 1:
				x.S = nearStr(t, x.S)
			case x.K == "int" && chance(t, 4) && x.I < math.MaxInt:
				x.I++
			}
		}
		return n
	})
}
