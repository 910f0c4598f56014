package main

import (
	"math"
	"slices"
	"strings"

	"pgregory.net/rapid"
)

// Table of the row checks. Types: i integer, s text, b boolean, t time as text.
type column struct {
	Name string // in the database
	Type byte
	Gorm []string // how gorm may be asked for it
	Ent  []string // how ent sql may be asked for it
}

var itemCols = []column{
	{"id", 'i', []string{"id", "ID", "Id", "iD"}, []string{"id", "ID", "Id"}},
	{"age", 'i', []string{"age", "Age", "AGE", "aGe"}, []string{"age", "Age"}},
	{"score", 'i', []string{"score", "Score", "sCORE"}, []string{"score", "Score"}},
	{"name", 's', []string{"name", "Name", "NAME"}, []string{"name", "Name"}},
	{"full_name", 's', []string{"full_name", "FullName", "fullName", "fullname", "FULLNAME"}, []string{"full_name", "fullName", "FullName"}},
	{"active", 'b', []string{"active", "Active", "ACTIVE"}, []string{"active", "Active"}},
	{"open_flag", 'b', []string{"open_flag", "OpenFlag", "openFlag", "openflag"}, []string{"open_flag", "openFlag", "OpenFlag"}},
	{"happened_at", 't', []string{"happened_at", "HappenedAt", "happenedAt", "HAPPENEDAT"}, []string{"happened_at", "happenedAt", "HappenedAt"}},
	{"item_code", 's', []string{"item_code", "Code", "code", "CODE"}, []string{"item_code", "itemCode", "ItemCode"}},
}

func colIndex(cols []column, name string) int {
	for i, c := range cols {
		if c.Name == name {
			return i
		}
	}
	return -1
}

var (
	rowInts    = []int64{0, 1, 2, 3, 5, 7, 10, 18, 100, -1, 1 << 31, 1<<53 + 1, 1 << 53, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64}
	litInts    = []int{0, 1, 2, 3, 5, 7, 10, 18, 100, 1 << 31, 1<<53 + 1, 1 << 53, math.MaxInt64, math.MaxInt64 - 1}
	rowStrs    = []string{"a", "b", "A", "ab", "aB", "abc", "", "B", "x y", "%", "_", "a%", "a_b", "é", "É", "日本", "null", "true", "1", "10", "' or 1=1 --", "a'b", `a"b`, "a\\", "?", "$1", "a\nb", "aa", "ba", "💥"}
	likePats   = []string{"a%", "%", "%b", "_", "a_", "%a%", "A%", "", "ab", "__", "_b%", "a\\%", "%é%", "É", "日_", "%%", "a%b", "[a]", "*", "a%'", "%_%", "?"}
	rowTimes   = []string{"2024-01-02 03:04:05", "2024-01-02", "2024-01-02T23:59:59", "2024-02-28 00:00", "2023-12-31 23:59:59", "no date", "", "2024-01-03 00:00:00"}
	litTimes   = []string{"2024-01-02", "2024-01-03", "2023-12-31", "2024-02-28", "2024-01-02 03:04:05", "no date", "2024-01-02T23:59:59"}
	validTimes = []string{"2024-01-02 03:04:05", "2024-01-02", "2024-01-02T23:59:59", "no date"}
)

func genRowValue(t *rapid.T, typ byte) V {
	if chance(t, 5) {
		return V{}
	}
	switch typ {
	case 'i':
		if chance(t, 6) {
			return vInt(oneOf(t, rowInts))
		}
		return vInt(rowInts[pick(t, 8)])
	case 's':
		if chance(t, 12) {
			return vStr(oneOf(t, rowStrs) + oneOf(t, rowStrs))
		}
		return vStr(oneOf(t, rowStrs))
	case 'b':
		return vBool(pick(t, 2) == 1)
	case 't':
		return vStr(oneOf(t, rowTimes))
	}
	panic("type")
}

// genRows draws n rows; the first column is a unique id
func genRows(t *rapid.T, cols []column, n int) (rows [][]V) {
	for i := 0; i < n; i++ {
		row := []V{vInt(int64(i + 1))}
		for _, c := range cols[1:] {
			row = append(row, genRowValue(t, c.Type))
		}
		rows = append(rows, row)
	}
	return
}

// condGen draws conditions that have a meaning for a table
type condGen struct {
	cols   []column
	name   func(t *rapid.T, c column) string // the spelling of a column
	ref    func(t *rapid.T, typ byte) *N     // a related column, or nil
	edge   func(t *rapid.T, d int) *N        // an edge condition, or nil
	noNest bool                              // conditions are no operands of comparisons
	noTF   bool                              // no is true
	noDate bool
	mods   bool // date may have more arguments, as in SQLite
	noLike bool
	noBare bool // no bare column or literal as a condition
	noLits bool // comparisons have a column on one side at least
	noNull bool // no null literals
	noNB   bool // no not between
	cidLHS bool // the left side is always a column
	mix    bool // types may differ
	nests  bool // a chain becomes nested parentheses
	noCol2 bool // the right side is never a column
	markNo int  // number of marked literals so far
	mark   bool // literals that are easy to find again
}

func (g *condGen) col(t *rapid.T, typ byte) *N {
	if g.ref != nil && pick(t, 3) == 2 {
		if n := g.ref(t, typ); n != nil {
			return n
		}
	}
	var s []column
	for _, c := range g.cols {
		if c.Type == typ || g.mix {
			s = append(s, c)
		}
	}
	if len(s) == 0 {
		return g.lit(t, typ)
	}
	c := oneOf(t, s)
	return nID(g.name(t, c))
}

func (g *condGen) lit(t *rapid.T, typ byte) *N {
	if g.mix && pick(t, 2) == 1 {
		typ = oneOf(t, valueTypes)
		if chance(t, 4) {
			return nStr(oneOf(t, []string{"1", "0", "2", "01", "1.0", " 1", "1 ", "true", "null", "1e0", "-1"}))
		}
	}
	if !g.noNull && chance(t, 12) {
		return nNull()
	}
	switch typ {
	case 'i':
		if chance(t, 8) {
			if chance(t, 2) && len(dictInts) > 0 {
				return nInt(max(0, oneOf(t, dictInts)))
			}
			return nInt(genInt(t))
		}
		return nInt(oneOf(t, litInts))
	case 's':
		if chance(t, 6) {
			return nStr(rowSafe(genStr(t)))
		}
		return nStr(oneOf(t, rowStrs))
	case 'b':
		return nBool(pick(t, 2) == 0)
	}
	return nStr(oneOf(t, litTimes))
}

// rowSafe leaves out what SQLite does not keep in texts
func rowSafe(s string) string {
	b := make([]rune, 0, len(s))
	for _, c := range s {
		if c != 0 {
			b = append(b, c)
		}
	}
	return string(b)
}

var valueTypes = []byte{'i', 's', 'i', 's', 'b', 't'}

// operand of a type
func (g *condGen) operand(t *rapid.T, typ byte, d int) *N {
	k := pick(t, 8)
	switch {
	case k == 7 && typ == 't' && !g.noDate:
		n := nFn("date", g.col(t, 't'))
		for g.mods && len(n.A) < 4 && chance(t, 3) {
			n.A = append(n.A, nStr(oneOf(t, []string{"+1 day", "-40 days", "start of month", "start of year"})))
		}
		return n
	case k == 6 && typ == 't' && !g.noDate:
		return nFn("date", nStr(oneOf(t, validTimes)))
	case k == 7 && typ == 'b' && !g.noNest && d > 0:
		return g.cond(t, d-1)
	case k >= 4:
		return g.lit(t, typ)
	}
	return g.col(t, typ)
}

func (g *condGen) list(t *rapid.T, typ byte) *N {
	n := 1 + pick(t, 4)
	if chance(t, 40) {
		n = 1 + min(genSize(t), 300)
	}
	if chance(t, 20) {
		n = 0
	}
	a := nArr()
	for i := 0; i < n; i++ {
		if n > 10 && i > 5 && i < n-1 {
			a.A = append(a.A, a.A[i%6])
			continue
		}
		a.A = append(a.A, g.lit(t, typ))
	}
	return a
}

func (g *condGen) cond(t *rapid.T, d int) *N {
	if d <= 0 {
		return g.atom(t, 0)
	}
	switch pick(t, 10) {
	case 0, 1, 2:
		return g.atom(t, d)
	case 3, 4:
		return nLogic(g.cond(t, d-1), "and", g.cond(t, d-1))
	case 5, 6:
		return nLogic(g.cond(t, d-1), "or", g.cond(t, d-1))
	case 7:
		return nNot(g.cond(t, d-1))
	case 8:
		return nParen(g.cond(t, d-1))
	}
	if g.edge != nil {
		return g.edge(t, d-1)
	}
	n := 2 + pick(t, 4)
	x := g.atom(t, 0)
	for i := 0; i < n; i++ {
		x = nLogic(x, oneOf(t, []string{"and", "or"}), g.atom(t, 0))
	}
	return x
}

func (g *condGen) atom(t *rapid.T, d int) *N {
	typ := oneOf(t, valueTypes)
	left := func() *N {
		if g.cidLHS {
			return g.col(t, typ)
		}
		return g.operand(t, typ, d)
	}
	switch pick(t, 8) {
	case 0, 1, 2:
		l := left()
		r := g.operand(t, typ, d)
		if g.noCol2 || g.noLits && l.isLit() && r.isLit() {
			if g.noCol2 {
				r = g.lit(t, typ)
			} else {
				l = g.col(t, typ)
			}
		}
		return nCmp(l, cmpOps[pick(t, 6)], r)
	case 3:
		if g.noLike {
			return nCmp(g.col(t, typ), cmpOps[pick(t, 6)], g.lit(t, typ))
		}
		typ = 's'
		p := nStr(oneOf(t, likePats))
		if chance(t, 6) {
			p = g.operand(t, typ, 0)
		}
		return nCmp(left(), oneOf(t, []string{"like", "not like"}), p)
	case 4:
		return nCmp(left(), oneOf(t, []string{"in", "not in"}), g.list(t, typ))
	case 5:
		op := "between"
		if !g.noNB && pick(t, 2) == 1 {
			op = "not between"
		}
		return nBetween(op, left(), g.lit(t, typ), g.lit(t, typ))
	case 6:
		return nPred(left(), oneOf(t, []string{"is null", "is not null"}))
	}
	if g.noBare {
		return nPred(g.col(t, typ), oneOf(t, []string{"is null", "is not null"}))
	}
	if !g.noTF && pick(t, 2) == 1 {
		x := g.operand(t, oneOf(t, []byte{'b', 'b', 'b', 'i'}), d)
		return nPred(x, oneOf(t, predOps[2:]))
	}
	switch pick(t, 8) {
	case 0, 1:
		return nBool(pick(t, 2) == 0)
	case 2:
		return g.col(t, 'i')
	case 3:
		return g.lit(t, 'i')
	}
	return g.col(t, 'b')
}

// query draws a whole condition, sometimes a long one
func (g *condGen) query(t *rapid.T) *N {
	n := g.cond(t, pick(t, 5))
	if chance(t, 30) {
		k := min(genSize(t), 120)
		a, b := g.atom(t, 0), g.atom(t, 0)
		// SQLite reads about 100 nested parentheses
		deep := min(k, 30)
		if g.nests {
			k = min(k, 60)
		}
		switch pick(t, 4) {
		case 0:
			for i := 0; i < deep; i++ {
				n = nParen(n)
			}
		case 1:
			for i := 0; i < k; i++ {
				n = nLogic(n, "or", []*N{a, b}[i%2])
			}
		case 2:
			for i := 0; i < 2*deep; i++ {
				n = nLogic(n, []string{"and", "or"}[i%2], []*N{a, b}[i%2])
			}
		case 3:
			for i := 0; i < deep; i++ {
				n = nNot(nParen(n))
			}
		}
	}
	if !g.mark && chance(t, 8) {
		n = repeat(t, n, false)
	}
	return Fix(n)
}

// echo puts literals of the conditions into the rows, as they are or slightly
// changed, in the column they are compared with
func echo(t *rapid.T, rows [][]V, cols []column, trees ...*N) {
	if len(rows) == 0 || pick(t, 3) == 0 {
		return
	}
	for _, tree := range trees {
		if tree == nil {
			continue
		}
		tree.walk(func(n *N) {
			if n.K != "cmp" && n.K != "between" {
				return
			}
			col := -1
			for _, x := range n.A {
				if x.K == "id" && col < 0 {
					col = slices.IndexFunc(cols, func(c column) bool {
						same := func(s string) bool { return strings.EqualFold(s, x.S) }
						return slices.ContainsFunc(c.Gorm, same) || slices.ContainsFunc(c.Ent, same)
					})
				}
			}
			if col < 1 {
				return
			}
			for _, x := range n.A {
				if x.K == "arr" && len(x.A) > 0 {
					x = oneOf(t, x.A)
				}
				if pick(t, 2) == 0 {
					continue
				}
				row := oneOf(t, rows)
				switch {
				case x.K == "int" && cols[col].Type == 'i':
					i := int64(x.I)
					if chance(t, 3) && i < math.MaxInt64 {
						i++
					}
					row[col] = vInt(i)
				case x.K == "str" && cols[col].Type == 's':
					row[col] = vStr(nearStr(t, x.S))
				}
			}
		})
	}
}

// echoQ is echo for items
func echoQ(t *rapid.T, rows [][]V, qs []caseQ) {
	for _, q := range qs {
		echo(t, rows, itemCols, q.Tree)
	}
}

// nearStr is s or something that could be taken for it
func nearStr(t *rapid.T, s string) string {
	switch pick(t, 12) {
	case 0:
		return s + " "
	case 1:
		return strings.ToUpper(s)
	case 2:
		return strings.TrimSpace(s)
	case 3:
		return strings.TrimLeft(s, "0")
	case 4:
		return strings.ReplaceAll(s, "\\", "\\\\")
	case 5:
		if len(s) > 1 {
			return strings.ToValidUTF8(s[:len(s)-1], "")
		}
	}
	return s
}
