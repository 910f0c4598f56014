package main

import (
	"fmt"
	"strings"

	"entgo.io/ent/dialect"
	"entgo.io/ent/dialect/sql/sqlgraph"
	"entgo.io/ent/entql"
	"entgo.io/ent/schema/field"
	"github.com/wenerme/go-miniquery/entmq"
	"pgregory.net/rapid"
)

// entqlGen draws conditions entql can express
func entqlGen() *condGen {
	return &condGen{cols: itemCols, name: func(t *rapid.T, c column) string { return c.Name },
		noNest: true, noTF: true, noDate: true, noLike: true, noBare: true, cidLHS: true, nests: true}
}

const entqlWays = 4

// buildEntQL builds one predicate
func buildEntQL(q string, way int) (p entql.P, err error, crash error) {
	crash = guard(func() {
		switch way {
		case 0:
			p, err = entmq.BuildEntQL(q)
		case 1:
			p, err = (&entmq.MiniQLToEntQLBuilder{Query: q}).Build()
		case 3:
			mb := &entmq.MiniQLToEntQLBuilder{Query: q}
			_, first := mb.Build()
			if p, err = mb.Build(); (err == nil) != (first == nil) {
				err = failf("built once: %v, built again: %v", first, err)
			}
		case 2:
			var rec whereRec
			err = entmq.ApplyEntQL(&rec, []string{q})
			if len(rec) == 1 {
				p = rec[0]
			} else if len(rec) > 1 {
				err = failf("%d predicates", len(rec))
			}
		}
	})
	return
}

type whereRec []entql.P

func (w *whereRec) Where(p entql.P) { *w = append(*w, p) }

// entqlIDs reads the rows some predicates select
func entqlIDs(ps []entql.P, dia string) (ids []int64, query string, err error) {
	s := entSelect(dia)
	g := entGraph()
	for _, p := range ps {
		if err = g.EvalP("Item", p, s); err != nil {
			return
		}
	}
	query, args := s.Query()
	if err = s.Err(); err != nil {
		return
	}
	q := query
	if dia == dialect.Postgres {
		q = toSQLite(q)
	}
	ids, err = queryIDs(q, args...)
	return
}

func qlNB() bool {
	entQLNBOnce.Do(func() {
		entQLNB = entNotBetween(func(q string) ([]int64, error) {
			p, err := entmq.BuildEntQL(q)
			if err != nil {
				return nil, err
			}
			ids, _, err := entqlIDs([]entql.P{p}, dialect.SQLite)
			return ids, err
		})
	})
	return entQLNB
}

// ---- structure ----

// shape writes the structure of a predicate; chains of the same operator are
// flat
func shape(e entql.Expr) string {
	var sb strings.Builder
	var write func(e entql.Expr)
	var operands func(op entql.Op, e entql.Expr) []entql.Expr
	operands = func(op entql.Op, e entql.Expr) (s []entql.Expr) {
		switch e := e.(type) {
		case *entql.BinaryExpr:
			if e.Op == op {
				return append(operands(op, e.X), operands(op, e.Y)...)
			}
		case *entql.NaryExpr:
			if e.Op == op {
				for _, x := range e.Xs {
					s = append(s, operands(op, x)...)
				}
				return
			}
		}
		return []entql.Expr{e}
	}
	value := func(v any) {
		d, err := driverValue(v)
		if err != nil {
			fmt.Fprintf(&sb, "<%T %v>", v, v)
			return
		}
		fmt.Fprintf(&sb, "%#v", d)
	}
	write = func(e entql.Expr) {
		op := func(o entql.Op) {
			sb.WriteString("(" + o.String())
			for _, x := range operands(o, e) {
				sb.WriteByte(' ')
				write(x)
			}
			sb.WriteByte(')')
		}
		switch e := e.(type) {
		case *entql.BinaryExpr:
			if e.Op == entql.OpAnd || e.Op == entql.OpOr {
				op(e.Op)
				return
			}
			sb.WriteString("(" + e.Op.String() + " ")
			write(e.X)
			sb.WriteByte(' ')
			write(e.Y)
			sb.WriteByte(')')
		case *entql.NaryExpr:
			op(e.Op)
		case *entql.UnaryExpr:
			sb.WriteString("(" + e.Op.String() + " ")
			write(e.X)
			sb.WriteByte(')')
		case *entql.Field:
			sb.WriteString("@" + e.Name)
		case *entql.Value:
			switch {
			case e == nil:
				sb.WriteString("nil")
			default:
				if s, ok := e.V.([]any); ok {
					sb.WriteByte('[')
					for _, v := range s {
						value(v)
						sb.WriteByte(' ')
					}
					sb.WriteByte(']')
					return
				}
				value(e.V)
			}
		default:
			fmt.Fprintf(&sb, "<%T>", e)
		}
	}
	write(e)
	return sb.String()
}

var entqlOps = map[string]entql.Op{"eq": entql.OpEQ, "neq": entql.OpNEQ, "gt": entql.OpGT, "gte": entql.OpGTE, "lt": entql.OpLT, "lte": entql.OpLTE,
	"in": entql.OpIn, "not in": entql.OpNotIn, "and": entql.OpAnd, "or": entql.OpOr}

// entqlOf builds the predicate of a query on our own; range says how a negated
// range is written
func entqlOf(n *N, negRange int) entql.Expr {
	bin := func(op entql.Op, x, y entql.Expr) entql.P { return &entql.BinaryExpr{Op: op, X: x, Y: y} }
	switch n.K {
	case "paren":
		return entqlOf(n.A[0], negRange)
	case "not":
		return entql.Not(entqlOf(n.A[0], negRange).(entql.P))
	case "logic", "cmp":
		return bin(entqlOps[n.Op], entqlOf(n.A[0], negRange), entqlOf(n.A[1], negRange))
	case "pred":
		name := entqlOf(n.A[0], negRange).(*entql.Field).Name
		if n.Op == "is null" {
			return entql.FieldNil(name)
		}
		return entql.FieldNotNil(name)
	case "between":
		x, lo, hi := entqlOf(n.A[0], negRange), entqlOf(n.A[1], negRange), entqlOf(n.A[2], negRange)
		if n.Op == "between" {
			return entql.And(bin(entql.OpGTE, x, lo), bin(entql.OpLTE, x, hi))
		}
		switch negRange {
		case 0:
			return entql.And(bin(entql.OpLT, x, lo), bin(entql.OpGT, x, hi))
		case 1:
			return entql.Or(bin(entql.OpLT, x, lo), bin(entql.OpGT, x, hi))
		}
		return entql.Not(entql.And(bin(entql.OpGTE, x, lo), bin(entql.OpLTE, x, hi)))
	case "id":
		return entql.F(n.S)
	case "arr":
		s := []any{}
		for _, a := range n.A {
			s = append(s, entqlOf(a, negRange).(*entql.Value).V)
		}
		return &entql.Value{V: s}
	case "int":
		return &entql.Value{V: n.I}
	case "str":
		return &entql.Value{V: n.S}
	case "bool":
		return &entql.Value{V: n.B}
	case "null":
		return &entql.Value{V: nil}
	}
	panic("entql " + n.K)
}

// sameShape compares a predicate with the structure of its query
func sameShape(p entql.P, n *N) error {
	got := shape(p)
	var want string
	for k := 0; k < 3; k++ {
		want = shape(entqlOf(n, k))
		if got == want {
			return nil
		}
	}
	return failf("the predicate is %s with the structure\n %s\nwant\n %s", p, got, shape(entqlOf(n, 0)))
}

// ---- C27 ----

type caseC27 struct {
	Rows [][]V   `json:"rows"`
	Q    []caseQ `json:"q"`
	Dia  int     `json:"dialect"`
	Way  int     `json:"way"`
	Any  bool    `json:"any,omitempty"` // any names, there is no table of them
}

func genC27(t *rapid.T) (c caseC27) {
	g := entqlGen()
	if c.Any = chance(t, 6); c.Any {
		n := g.query(t)
		names := map[string]string{}
		n.walk(func(n *N) {
			if n.K == "id" {
				if names[n.S] == "" || chance(t, 8) {
					names[n.S] = genName(t)
				}
				n.S = names[n.S]
			}
		})
		c.Q, c.Way = []caseQ{writeQ(t, n)}, pick(t, entqlWays)
		return
	}
	for i := 1 + pick(t, 4); i > 0; i-- {
		g.cidLHS = !chance(t, 10)
		c.Q = append(c.Q, writeQ(t, g.query(t)))
	}
	c.Rows = genRows(t, itemCols, genRowCount(t))
	echoQ(t, c.Rows, c.Q)
	c.Dia, c.Way = pick(t, 3), pick(t, entqlWays)
	return
}

func evalC27(c caseC27, r *Rec) error {
	nb := qlNB()
	d := &entData{Items: c.Rows}
	if !c.Any {
		fill("items", colNames(itemCols), c.Rows)
	}
	for _, q := range c.Q {
		if c.Any {
			r.Label("any names")
			r.NonTrivial(true)
			p, err, crash := buildEntQL(q.Text, c.Way)
			if crash != nil {
				return failf("%s crashed: %v", quoteShort(q.Text), crash)
			}
			if entqlClass(q.Tree) > qlOK {
				continue
			}
			if err != nil {
				return failf("%s is refused: %v", quoteShort(q.Text), err)
			}
			if p == nil {
				return failf("%s gives no predicate", quoteShort(q.Text))
			}
			if err := sameShape(p, q.Tree); err != nil {
				return failf("%s: %v", quoteShort(q.Text), err)
			}
			continue
		}
		want := d.want(r, q.Tree, nb, keyQLNB)
		r.NonTrivial(len(want) > 0 && len(want) < len(c.Rows))
		labelTree(r, q.Tree)
		// ent does not know comparisons of a value with something, but if it
		// takes one the rows are the right ones
		late := entqlClass(q.Tree) > qlOK
		if late {
			r.Label("value on the left")
		}
		p, err, crash := buildEntQL(q.Text, c.Way)
		if crash != nil {
			return failf("%s crashed: %v", quoteShort(q.Text), crash)
		}
		if err != nil && late {
			continue
		}
		if err != nil {
			return failf("%s is refused: %v", quoteShort(q.Text), err)
		}
		if p == nil {
			return failf("%s gives no predicate", quoteShort(q.Text))
		}
		if err := sameShape(p, q.Tree); err != nil && !late {
			return failf("%s: %v", quoteShort(q.Text), err)
		}
		var ids []int64
		var sent string
		if crash := guard(func() { ids, sent, err = entqlIDs([]entql.P{p}, entDialects[c.Dia]) }); crash != nil {
			return failf("%s: evaluating %v crashed: %v", quoteShort(q.Text), p, crash)
		}
		if err != nil && late {
			continue
		}
		if limited(r, err, q.Text) {
			continue
		}
		if err != nil {
			return failf("%s fails: %v; built %s", quoteShort(q.Text), err, sent)
		}
		if !sameIDs(ids, want) {
			return failf("%s selects the rows %v, want %v; predicate %v, built %s", quoteShort(q.Text), sortedIDs(ids), want, p, sent)
		}
	}
	return nil
}

// ---- C28 ----

const keyQLBool = "entql-bool-operand"

type caseC28 struct {
	Bad  string  `json:"bad,omitempty"` // one query
	Way  int     `json:"way"`
	List []entry `json:"list,omitempty"` // or a list; nil tree: must be refused
	Rows [][]V   `json:"rows,omitempty"`
}

func genC28(t *rapid.T) (c caseC28) {
	c.Way = pick(t, entqlWays)
	if pick(t, 2) == 0 {
		switch pick(t, 4) {
		case 0:
			c.Bad = genMutant(t)
		case 1:
			c.Bad = Write(t, genTree(t), Style(pick(t, 3)))
		default:
			c.Bad = genBadEntQL(t)
		}
		return
	}
	g := entqlGen()
	g.noNB = true
	c.Rows = genRows(t, itemCols, 2+pick(t, 6))
	n, kinds := pick(t, 6), 8
	if chance(t, 12) {
		if n = 6 + genSize(t)%70; pick(t, 4) > 0 {
			kinds = 6
		}
	}
	for i := n; i > 0; i-- {
		switch pick(t, kinds) {
		case 6:
			c.List = append(c.List, entry{})
		case 7:
			c.List = append(c.List, entry{Text: genBadEntQL(t)})
		case 5:
			if len(c.List) > 0 {
				c.List = append(c.List, oneOf(t, c.List))
			}
		default:
			q := writeQ(t, g.cond2(t))
			c.List = append(c.List, entry{Text: q.Text, Tree: q.Tree})
		}
	}
	return
}

func (g *condGen) cond2(t *rapid.T) *N { return Fix(g.cond(t, pick(t, 3))) }

// genBadEntQL draws a query that has to be refused
func genBadEntQL(t *rapid.T) string {
	g := entqlGen()
	var n *N
	typ := oneOf(t, valueTypes)
	col := g.col(t, typ)
	if chance(t, 12) {
		return genNothing(t)
	}
	switch pick(t, 9) {
	case 0:
		n = nCmp(col, oneOf(t, []string{"like", "not like"}), g.lit(t, 's'))
	case 1:
		n = nFn(oneOf(t, []string{"date", "has_edge", "f", "lower", "has"}), col)
		if pick(t, 2) == 1 {
			n = nCmp(n, cmpOps[pick(t, 6)], g.lit(t, typ))
		}
	case 2:
		n = nPred(col, oneOf(t, predOps[2:]))
	case 3:
		n = nCmp(nRef("owner", "name"), "eq", nInt(1))
	case 4:
		n = nPred(g.lit(t, typ), oneOf(t, predOps[:2]))
	case 5:
		n = nPred(nParen(g.atom(t, 0)), oneOf(t, predOps[:2]))
	case 6:
		n = nNot(oneOf(t, []*N{col, g.lit(t, typ)}))
	case 7:
		n = nLogic(g.atom(t, 0), oneOf(t, []string{"or", "and"}), oneOf(t, []*N{col, nInt(1), nStr("x"), nNull()}))
	case 8:
		x := oneOf(t, []*N{col, nInt(1), nStr("x"), nNull(), nBool(true), nBool(false)})
		for i := pick(t, 3); i > 0; i-- {
			x = nParen(x)
		}
		return Write(t, Fix(x), Style(pick(t, 3)))
	}
	for i := pick(t, 4); i > 0; i-- {
		switch pick(t, 4) {
		case 0:
			n = nLogic(n, oneOf(t, []string{"or", "and"}), g.atom(t, 0))
		case 1:
			n = nLogic(g.atom(t, 0), oneOf(t, []string{"or", "and"}), n)
		case 2:
			n = nNot(n)
		case 3:
			n = nParen(n)
		}
	}
	return Write(t, Fix(n), Style(pick(t, 3)))
}

const (
	qlOK    = iota // entql can express it
	qlOdd          // nothing is asserted but that it does not crash
	qlLate         // refused when it is built or when it is evaluated
	qlBool         // a boolean literal is an operand
	qlNever        // refused when it is built
)

// entqlClass says how a query is to be treated
func entqlClass(n *N) (class int) {
	bare := func(n *N) *N {
		for n.K == "paren" {
			n = n.A[0]
		}
		return n
	}
	set := func(c int) { class = max(class, c) }
	condition := func(n *N) {
		switch n = bare(n); {
		case n.isLit() || n.K == "id" || n.K == "ref":
			set(qlNever)
		}
	}
	condition(n)
	n.walk(func(n *N) {
		switch n.K {
		case "func", "ref":
			set(qlNever)
		case "not":
			condition(n.A[0])
		case "logic":
			for _, a := range n.A {
				if bare(a).K == "bool" {
					set(qlBool)
				} else {
					condition(a)
				}
			}
		case "pred":
			if bare(n.A[0]).K != "id" || n.Op != "is null" && n.Op != "is not null" {
				set(qlNever)
			}
		case "cmp":
			if strings.Contains(n.Op, "like") {
				set(qlNever)
			}
			l, x := bare(n.A[0]), bare(n.A[1])
			in := n.Op == "in" || n.Op == "not in"
			switch {
			case l.K != "id" || x.K != "id" && !x.isLit():
				set(qlLate)
			case (x.K == "arr") != in || in && len(x.A) == 0:
				set(qlOdd)
			}
		case "between":
			if bare(n.A[0]).K != "id" {
				set(qlLate)
			}
			for _, a := range n.A[1:] {
				if a.K == "arr" {
					set(qlOdd)
				}
			}
		}
	})
	return
}

func evalC28(c caseC28, r *Rec) error {
	if c.List == nil {
		if c.Bad == "" {
			return nil
		}
		tree, ok := refParse(c.Bad)
		class := qlNever
		if ok {
			class = entqlClass(tree)
		}
		r.Label("class %d", class)
		if !ok {
			r.Label("bad syntax")
		}
		r.NonTrivial(class > qlOdd)
		p, err, crash := buildEntQL(c.Bad, c.Way)
		what := quoteShort(c.Bad)
		if crash != nil {
			return failf("%s crashed: %v", what, crash)
		}
		if err != nil {
			if p != nil {
				return failf("%s is refused with %v, but there is the predicate %v", what, err, p)
			}
			if class == qlOK {
				return failf("%s is refused: %v", what, err)
			}
			return nil
		}
		if p == nil {
			return failf("%s gives no predicate and no error", what)
		}
		switch class {
		case qlNever:
			return failf("%s is no query for entql but is not refused: %v", what, p)
		case qlOK:
			if err := sameShape(p, tree); err != nil {
				return failf("%s: %v", what, err)
			}
		case qlOdd:
			return nil
		}
		g := &sqlgraph.Schema{Nodes: []*sqlgraph.Node{{Type: "Item", NodeSpec: sqlgraph.NodeSpec{Table: "items", ID: &sqlgraph.FieldSpec{Column: "id", Type: field.TypeInt}}, Fields: map[string]*sqlgraph.FieldSpec{}}}}
		tree.walk(func(n *N) {
			if n.K == "id" {
				g.Nodes[0].Fields[n.S] = &sqlgraph.FieldSpec{Column: n.S}
			}
		})
		crash = guard(func() {
			s := entSelect(dialect.SQLite)
			if err = g.EvalP("Item", p, s); err == nil {
				s.Query()
				err = s.Err()
			}
		})
		switch {
		case crash != nil && class == qlBool:
			// ent does not know literals as conditions
			r.Known(keyQLBool)
		case crash != nil:
			return failf("%s gives %v, which crashes when it is evaluated: %v", what, p, crash)
		case class == qlOK && err != nil:
			return failf("%s gives %v, which cannot be evaluated: %v", what, p, err)
		case class == qlLate && err == nil:
			return failf("%s cannot be expressed, but is not refused: %v", what, p)
		}
		return nil
	}

	var texts []string
	var want []*N
	bad := ""
	for _, e := range c.List {
		texts = append(texts, e.Text)
		if bad != "" || e.Text == "" {
			continue
		}
		if e.Tree == nil {
			bad = e.Text
			continue
		}
		want = append(want, e.Tree)
	}
	r.Label("predicates: %d", len(want))
	if bad != "" {
		r.Label("list with a bad query")
	}
	r.NonTrivial(len(want) > 1 || bad != "" && len(want) > 0)
	var rec whereRec
	var err error
	if crash := guard(func() { err = entmq.ApplyEntQL(&rec, texts) }); crash != nil {
		return failf("%q crashed: %v", texts, crash)
	}
	if bad != "" && err == nil {
		return failf("%q is applied without an error, but %q is invalid", texts, bad)
	}
	if bad == "" && err != nil {
		return failf("%q is refused: %v", texts, err)
	}
	if len(rec) != len(want) {
		return failf("%q gives %d predicates, want %d", texts, len(rec), len(want))
	}
	for i, p := range rec {
		if p == nil {
			return failf("%q gives no predicate at %d", texts, i)
		}
		if err := sameShape(p, want[i]); err != nil {
			return failf("%q, predicate %d: %v", texts, i, err)
		}
	}
	fill("items", colNames(itemCols), c.Rows)
	ids, sent, err := entqlIDs(rec, dialect.SQLite)
	if err != nil {
		return failf("%q fails: %v", texts, err)
	}
	rows := matching(c.Rows, func(row []V) bool {
		for _, n := range want {
			if !rowEnv(row, entIndex["Item"]).Holds(n) {
				return false
			}
		}
		return true
	})
	if !sameIDs(ids, rows) {
		return failf("%q selects the rows %v, want %v; built %s", texts, sortedIDs(ids), rows, sent)
	}
	return nil
}

func init() {
	register(Prop{ID: "C27", Quick: 160000, Thor: 500000,
		Rule: "conditions entql can express over a table of random rows, evaluated by ent for 3 dialects; non-trivial: a query selects some but not all rows"}, genC27, evalC27)
	register(Prop{ID: "C28", Quick: 300000, Thor: 1200000,
		Rule: "queries entql cannot express, and lists of valid, empty and invalid queries; non-trivial: such a query, or a list with 2 predicates or with one before an invalid query"}, genC28, evalC28)
}
