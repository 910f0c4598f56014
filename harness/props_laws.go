package main

import (
	"slices"
	"strconv"
	"strings"

	"entgo.io/ent/dialect"
	"entgo.io/ent/entql"
	"pgregory.net/rapid"
)

// ---- C32 ----

type caseC32 struct {
	Rows  [][]V    `json:"rows"`
	Q     caseQ    `json:"q"`
	Same  []caseQ  `json:"same,omitempty"` // Q rewritten
	Laws  []string `json:"laws,omitempty"`
	Other *caseQ   `json:"other,omitempty"` // combined with Q
	Not   *caseQ   `json:"not,omitempty"`
	And   *caseQ   `json:"and,omitempty"`
	Or    *caseQ   `json:"or,omitempty"`
	Dia   int      `json:"dialect"`
	Way   int      `json:"way"`
}

func genC32(t *rapid.T) (c caseC32) {
	g := entqlGen()
	ql := pick(t, 3) == 0
	if !ql {
		g = &condGen{cols: itemCols, name: g.name, noTF: pick(t, 2) == 0}
	}
	g.mix = pick(t, 2) > 0
	g.noNB = true
	n := g.query(t)
	if g.mix && chance(t, 2) {
		n = twins(n)
	}
	c.Q = writeQ(t, n)
	c.Rows = genRows(t, itemCols, 3+genRowCount(t))
	for _, row := range c.Rows {
		if chance(t, 3) {
			k := 1 + pick(t, len(row)-1)
			row[k] = genRowValue(t, oneOf(t, valueTypes))
		}
	}
	echo(t, c.Rows, itemCols, n)
	c.Dia, c.Way = pick(t, 3), pick(t, entWays)
	if chance(t, 4) {
		x := g.query(t)
		write := func(n *N) *caseQ {
			q := writeQ(t, Fix(n))
			return &q
		}
		c.Other, c.Not, c.And, c.Or = write(x), write(nNot(n)), write(nLogic(n, "and", x)), write(nLogic(n, "or", x))
		return
	}
	for i := 1 + pick(t, 2); i > 0; i-- {
		m := n
		for k := 1 + pick(t, 4); k > 0; k-- {
			var law string
			if m.size() > 300 {
				break
			}
			if m, law = rewrite(t, g, m, ql); law != "" && !slices.Contains(c.Laws, law) {
				c.Laws = append(c.Laws, law)
			}
		}
		c.Same = append(c.Same, writeQ(t, Fix(m)))
	}
	return
}

// twins adds values of another type that are written the same to lists
func twins(n *N) *N {
	return n.mapTree(func(x *N) *N {
		if x.K != "arr" {
			return x
		}
		for _, v := range x.A {
			switch {
			case v.K == "int":
				x.A = append(x.A, nStr(strconv.Itoa(v.I)))
			case v.K == "str":
				if i, err := strconv.Atoi(v.S); err == nil && i >= 0 {
					x.A = append(x.A, nInt(i))
				}
			case v.K == "bool":
				x.A = append(x.A, nStr(strconv.FormatBool(v.B)))
			}
		}
		return x
	})
}

// conditions are all nodes of which only the truth counts
func conditions(n *N, f func(*N)) {
	f(n)
	switch n.K {
	case "paren", "not", "logic":
		for _, a := range n.A {
			conditions(a, f)
		}
	}
}

func inner(n *N) *N {
	for n.K == "paren" {
		n = n.A[0]
	}
	return n
}

var (
	mirrored = map[string]string{"eq": "eq", "neq": "neq", "gt": "lt", "gte": "lte", "lt": "gt", "lte": "gte"}
	negated  = map[string]string{"eq": "neq", "neq": "eq", "gt": "lte", "gte": "lt", "lt": "gte", "lte": "gt", "like": "not like", "not like": "like", "in": "not in", "not in": "in",
		"is null": "is not null", "is not null": "is null", "is true": "is not true", "is not true": "is true", "is false": "is not false", "is not false": "is false"}
	dual = map[string]string{"and": "or", "or": "and"}
)

// rewrite applies a law to one condition of a query
func rewrite(t *rapid.T, g *condGen, n *N, ql bool) (*N, string) {
	var all []*N
	conditions(n, func(x *N) { all = append(all, x) })
	at := oneOf(t, all)
	y, law := applyLaw(t, g, at, ql)
	if y == nil {
		return n, ""
	}
	return replaceNode(n, at, y), law
}

func replaceNode(n, at, y *N) *N {
	if n == at {
		return y
	}
	switch n.K {
	case "paren", "not", "logic":
		c := *n
		c.A = nil
		for _, a := range n.A {
			c.A = append(c.A, replaceNode(a, at, y))
		}
		return &c
	}
	return n
}

func applyLaw(t *rapid.T, g *condGen, n *N, ql bool) (*N, string) {
	not := func(x *N) *N { return nNot(nParen(x)) }
	if pick(t, 4) == 0 {
		// laws for anything
		if ql && (inner(n).isLit() || inner(n).K == "id") {
			return nil, ""
		}
		switch pick(t, 7) {
		case 0:
			return not(not(n)), "double negation"
		case 1:
			return nLogic(nParen(n), oneOf(t, []string{"and", "or"}), nParen(n)), "idempotence"
		case 2:
			op := oneOf(t, []string{"and", "or"})
			return nLogic(nParen(n), op, nParen(nLogic(nParen(n), dual[op], g.atom(t, 0)))), "absorption"
		case 3:
			op := oneOf(t, []string{"and", "or"})
			return nLogic(nParen(nLogic(g.atom(t, 0), dual[op], nParen(n))), op, nParen(n)), "absorption"
		}
		if pick(t, 3) == 0 {
			return nParen(n), "group"
		}
		// true and false, bare or as a condition that is nothing else
		op := oneOf(t, []string{"and", "or"})
		x := nBool(op == "and")
		switch pick(t, 4) {
		case 0:
			x = nParen(nLogic(x, dual[op], g.atom(t, 0)))
		case 1:
			x = nParen(nLogic(g.atom(t, 0), dual[op], x))
		}
		if pick(t, 3) == 0 {
			return nLogic(x, op, nParen(n)), "neutral element"
		}
		return nLogic(nParen(n), op, x), "neutral element"
	}
	switch n.K {
	case "paren":
		return n.A[0], "group"
	case "not":
		x := inner(n.A[0])
		switch x.K {
		case "not":
			return nParen(x.A[0]), "double negation"
		case "logic":
			return nParen(nLogic(not(x.A[0]), dual[x.Op], not(x.A[1]))), "De Morgan"
		case "cmp", "pred":
			c := *x
			c.Op = negated[x.Op]
			return nParen(&c), "negated operator"
		}
		return nil, ""
	case "logic":
		l, r := n.A[0], n.A[1]
		switch pick(t, 4) {
		case 0:
			return nParen(nLogic(nParen(r), n.Op, nParen(l))), "commutation"
		case 1:
			return not(nLogic(not(l), dual[n.Op], not(r))), "De Morgan"
		case 2:
			if x := inner(l); x.K == "logic" && x.Op == n.Op {
				return nParen(nLogic(nParen(x.A[0]), n.Op, nParen(nLogic(nParen(x.A[1]), n.Op, nParen(r))))), "association"
			}
			if x := inner(r); x.K == "logic" && x.Op == n.Op {
				return nParen(nLogic(nParen(nLogic(nParen(l), n.Op, nParen(x.A[0]))), n.Op, nParen(x.A[1]))), "association"
			}
		}
		for i, x := range []*N{inner(l), inner(r)} {
			if x.K == "logic" && x.Op != n.Op {
				y := n.A[1-i]
				return nParen(nLogic(nParen(nLogic(nParen(x.A[0]), n.Op, nParen(y))), x.Op, nParen(nLogic(nParen(x.A[1]), n.Op, nParen(y))))), "distribution"
			}
		}
		return nParen(nLogic(nParen(r), n.Op, nParen(l))), "commutation"
	case "between":
		if n.Op == "between" {
			return nParen(nLogic(nCmp(n.A[0], "gte", n.A[1]), "and", nCmp(n.A[0], "lte", n.A[2]))), "range"
		}
	case "pred":
		c := *n
		c.Op = negated[n.Op]
		return not(&c), "negated operator"
	case "cmp":
		if n.Op == "in" || n.Op == "not in" {
			list := n.A[1].A
			if len(list) == 0 || len(list) > 20 {
				return nil, ""
			}
			op, join := "eq", "or"
			if n.Op == "not in" {
				op, join = "neq", "and"
			}
			if pick(t, 3) > 0 {
				// in two parts, or another order
				k := pick(t, len(list))
				a, b := nArr(list[:k]...), nArr(list[k:]...)
				if k == 0 {
					a = nArr(slices.Clone(list)...)
					slices.Reverse(a.A)
					return nCmp(n.A[0], n.Op, a), "list"
				}
				return nParen(nLogic(nCmp(n.A[0], n.Op, a), join, nCmp(n.A[0], n.Op, b))), "list"
			}
			x := nCmp(n.A[0], op, list[0])
			for _, v := range list[1:] {
				x = nLogic(x, join, nCmp(n.A[0], op, v))
			}
			return nParen(x), "list"
		}
		if m := mirrored[n.Op]; m != "" && !ql && pick(t, 2) == 0 {
			return nParen(nCmp(n.A[1], m, n.A[0])), "mirrored operator"
		}
		if ql && strings.Contains(n.Op, "like") {
			return nil, ""
		}
		if n.Op == "eq" && pick(t, 3) == 0 {
			if v := inner(n.A[1]); v.isLit() && v.K != "arr" {
				return nCmp(n.A[0], "in", nArr(v)), "list"
			}
		}
		c := *n
		c.Op = negated[n.Op]
		return not(&c), "negated operator"
	}
	return nil, ""
}

func evalC32(c caseC32, r *Rec) error {
	fill("items", colNames(itemCols), c.Rows)
	dia := entDialects[c.Dia]
	type result struct {
		ids  []int64
		sent string
	}
	// rows gives what every backend selects
	rows := func(q caseQ) (res []result, err error) {
		what := quoteShort(q.Text)
		res = make([]result, 2, 3)
		var errs [3]error
		if crash := guard(func() {
			db := openGorm(nil).Model(&Item{})
			res[0].ids, errs[0] = readItems(applyGorm(db, c.Way, q.Text), 0)
			res[0].sent = strings.Join(thePoolSent(), "; ")
			if q.Tree.has(func(n *N) bool { return n.K == "pred" && slices.Contains(predOps[2:], n.Op) }) {
				res = res[:1] // gorm only
				return
			}
			res[1].ids, res[1].sent, errs[1] = entIDs(entFilter(q.Text, dia, nil, false), dia, c.Way)
			if entqlClass(q.Tree) == qlOK {
				p, err, crash := buildEntQL(q.Text, 0)
				if crash != nil {
					panic(crash)
				}
				res = append(res, result{})
				if errs[2] = err; err == nil {
					res[2].ids, res[2].sent, errs[2] = entqlIDs([]entql.P{p}, dialect.SQLite)
				}
			}
		}); crash != nil {
			return nil, failf("%s crashed: %v", what, crash)
		}
		for k := range res {
			if limited(r, errs[k], q.Text) {
				return nil, nil
			}
			if errs[k] != nil {
				return nil, failf("%s fails with %s: %v; built %s", what, backends[k], errs[k], res[k].sent)
			}
			slices.Sort(res[k].ids)
		}
		return
	}
	first, err := rows(c.Q)
	if first == nil {
		return err
	}
	some := len(first[0].ids) > 0 && len(first[0].ids) < len(c.Rows)
	for _, law := range c.Laws {
		r.Label("law: %s", law)
	}
	for _, q := range c.Same {
		r.NonTrivial(some && Canon(q.Tree) != Canon(c.Q.Tree))
		got, err := rows(q)
		if got == nil {
			return err
		}
		for k := range min(len(got), len(first)) {
			if k == 2 {
				r.Label("entql, too")
			}
			if !slices.Equal(got[k].ids, first[k].ids) {
				return failf("%s and %s mean the same, but select the rows %v and %v with %s\n %s\n %s", quoteShort(c.Q.Text), quoteShort(q.Text), first[k].ids, got[k].ids, backends[k], first[k].sent, got[k].sent)
			}
		}
	}
	if c.Other == nil {
		return nil
	}
	r.Label("combined")
	r.NonTrivial(some)
	var all [4][]result
	for i, q := range []*caseQ{c.Other, c.Not, c.And, c.Or} {
		if all[i], err = rows(*q); all[i] == nil {
			return err
		}
	}
	for k := range first {
		if len(all[0]) <= k {
			break
		}
		in := func(i int, id int64) bool { return len(all[i]) <= k || slices.Contains(all[i][k].ids, id) }
		for id := int64(1); id <= int64(len(c.Rows)); id++ {
			a, b := slices.Contains(first[k].ids, id), in(0, id)
			if len(all[1]) > k && a && in(1, id) {
				return failf("row %d matches %s and %s with %s\n %s\n %s", id, quoteShort(c.Q.Text), quoteShort(c.Not.Text), backends[k], first[k].sent, all[1][k].sent)
			}
			if len(all[2]) > k && in(2, id) != (a && b) {
				return failf("with %s row %d matches %s: %v, %s: %v, but %s: %v; built %s", backends[k], id, quoteShort(c.Q.Text), a, quoteShort(c.Other.Text), b, quoteShort(c.And.Text), in(2, id), all[2][k].sent)
			}
			if len(all[3]) > k && in(3, id) != (a || b) {
				return failf("with %s row %d matches %s: %v, %s: %v, but %s: %v; built %s", backends[k], id, quoteShort(c.Q.Text), a, quoteShort(c.Other.Text), b, quoteShort(c.Or.Text), in(3, id), all[3][k].sent)
			}
		}
	}
	return nil
}

func init() {
	register(Prop{ID: "C32", Quick: 100000, Thor: 400000,
		Rule: "conditions and what they become by laws of logic, and conditions negated and combined, on tables with values of any type; non-trivial: some but not all rows are selected, and the query was changed"}, genC32, evalC32)
}
