package main

import (
	"database/sql/driver"
	"fmt"
	"maps"
	"reflect"
	"regexp"
	"slices"
	"strings"
	"sync"

	"entgo.io/ent/dialect"
	"entgo.io/ent/dialect/sql"
	"entgo.io/ent/dialect/sql/sqlgraph"
	"github.com/wenerme/go-miniquery/entmq"
	"pgregory.net/rapid"
)

// entNotBetween says what the code makes of a negated range: the recorded
// exception (lower than the first and greater than the second value), or not
func entNotBetween(ids func(q string) ([]int64, error)) (exception bool) {
	rows := [][]V{}
	for i, v := range []int64{0, 2, 4} {
		row := []V{vInt(int64(i + 1)), vInt(v)}
		for range itemCols[2:] {
			row = append(row, V{})
		}
		rows = append(rows, row)
	}
	fill("items", colNames(itemCols), rows)
	var got []int64
	var err error
	if crash := guard(func() { got, err = ids("age not between 1 and 3") }); crash != nil || err != nil {
		return false
	}
	return len(got) == 0
}

var (
	entSQLNB, entQLNB         bool
	entSQLNBOnce, entQLNBOnce sync.Once
)

func sqlNB() bool {
	entSQLNBOnce.Do(func() {
		entSQLNB = entNotBetween(func(q string) ([]int64, error) {
			ids, _, err := entIDs(entFilter(q, dialect.SQLite, nil, false), dialect.SQLite, 0)
			return ids, err
		})
	})
	return entSQLNB
}

const (
	keySQLNB = "entsql-not-between"
	keyQLNB  = "entql-not-between"
)

func (d *entData) want(r *Rec, q *N, nb bool, key string) (ids []int64) {
	return d.wantOf("Item", r, q, nb, key)
}

func (d *entData) wantOf(typ string, r *Rec, q *N, nb bool, key string) (ids []int64) {
	used := false
	for i := range d.rows(typ) {
		e := d.env(typ, int64(i+1))
		e.NotBetweenAnd, e.UsedNB = nb, &used
		if e.Holds(q) {
			ids = append(ids, int64(i+1))
		}
	}
	if used {
		r.Known(key)
	}
	return
}

// ---- C20 ----

type caseC20 struct {
	Rows   [][]V   `json:"rows"`
	Q      []caseQ `json:"q"`
	Dia    int     `json:"dialect"`
	Way    int     `json:"way"`
	NoCast bool    `json:"noCast"`
}

func genC20(t *rapid.T) (c caseC20) {
	g := entGen("Item")
	for i := 1 + pick(t, 4); i > 0; i-- {
		c.Q = append(c.Q, writeQ(t, g.query(t)))
	}
	c.Rows = genRows(t, itemCols, genRowCount(t))
	echoQ(t, c.Rows, c.Q)
	c.Dia, c.Way, c.NoCast = pick(t, 3), pick(t, entWays), pick(t, 2) == 1
	return
}

func evalC20(c caseC20, r *Rec) error {
	nb := sqlNB()
	d := &entData{Items: c.Rows}
	fill("items", colNames(itemCols), c.Rows)
	dia := entDialects[c.Dia]
	for _, q := range c.Q {
		want := d.want(r, q.Tree, nb, keySQLNB)
		r.NonTrivial(len(want) > 0 && len(want) < len(c.Rows))
		labelTree(r, q.Tree)
		var ids []int64
		var sent string
		var err error
		if crash := guard(func() { ids, sent, err = entIDs(entFilter(q.Text, dia, nil, c.NoCast), dia, c.Way) }); crash != nil {
			return failf("%s crashed: %v", quoteShort(q.Text), crash)
		}
		if limited(r, err, q.Text) {
			continue
		}
		if err != nil {
			return failf("%s fails: %v; built %s", quoteShort(q.Text), err, sent)
		}
		if !sameIDs(ids, want) {
			return failf("%s selects the rows %v, want %v; built %s", quoteShort(q.Text), sortedIDs(ids), want, sent)
		}
		if dia != dialect.SQLite {
			// SQLite reads an empty list, the others do not
			toks := sqlTokens(sent)
			for i := range toks {
				if i > 1 && toks[i-1].Text == "(" && toks[i].Text == ")" && strings.EqualFold(toks[i-2].Text, "IN") {
					return failf("%s has an empty list, which %s cannot read: %s", quoteShort(q.Text), dia, sent)
				}
			}
		}
	}
	return nil
}

// ---- C21 ----

type caseC21 struct {
	Q      caseQ  `json:"q"`
	Other  *N     `json:"other"`
	Text   string `json:"text"`
	Dia    int    `json:"dialect"`
	NoCast bool   `json:"noCast"`
	Before int    `json:"before"` // arguments before
	Way    int    `json:"way"`
}

func genC21(t *rapid.T) (c caseC21) {
	g := entGen("Item")
	if pick(t, 3) == 2 {
		g = edgeGen("Item")
	}
	n := g.query(t)
	c.Q = writeQ(t, markLits(t, n))
	c.Other = anyLits(t, n)
	c.Text = Write(t, c.Other, Style(pick(t, 3)))
	c.Dia, c.NoCast, c.Way = pick(t, 3), pick(t, 2) == 1, pick(t, 3)
	if c.Way > 0 || chance(t, 2) {
		c.Before = pick(t, 4)
		if chance(t, 20) {
			c.Before = pick(t, 130)
		}
	}
	return
}

var entWords = map[string]bool{}
var entNames = map[string]bool{}

func init() {
	for _, w := range strings.Fields("SELECT FROM WHERE JOIN ON AS AND OR NOT IN LIKE IS NULL DATE EXISTS") {
		entWords[w] = true
	}
	for typ, cols := range entCols {
		entNames[entTables[typ]] = true
		for _, c := range cols {
			entNames[c.Name] = true
		}
	}
	for _, s := range []string{"owner_id", "parent_id", "next_id", "item_id", "tag_id", "friend_id", "main_tag", "kind_no", "from_no", "to_no", "tag_likes", "item_tags", "item_friends", "details"} {
		entNames[s] = true
	}
}

// entAlias are names ent itself makes for sub queries
var entAlias = regexp.MustCompile(`^(t\d+|[a-z_]+_edge(_\d+)*)$`)

var intCasts = map[string]bool{"bigint": true, "int8": true, "numeric": true, "decimal": true}
var boolCasts = map[string]bool{"bool": true, "boolean": true}

// lit is a literal in the order of the SQL
type litC21 struct {
	v      any
	inList bool
	empty  bool // an empty list, may be a NULL
}

// entLits gives the literals in the order they have in the SQL; the operand of
// a range is written twice
func entLits(n *N) (s []litC21) {
	lit := func(n *N, inList bool) {
		switch n.K {
		case "int":
			s = append(s, litC21{v: n.I, inList: inList})
		case "str":
			s = append(s, litC21{v: n.S, inList: inList})
		case "bool":
			s = append(s, litC21{v: n.B, inList: inList})
		case "null":
			s = append(s, litC21{inList: inList})
		}
	}
	var visit func(n *N)
	visit = func(n *N) {
		switch {
		case n.K == "arr":
			for _, x := range n.A {
				lit(x, true)
			}
			if len(n.A) == 0 {
				s = append(s, litC21{empty: true})
			}
		case n.isLit():
			lit(n, false)
		case n.K == "between":
			visit(n.A[0])
			visit(n.A[1])
			visit(n.A[0])
			visit(n.A[2])
		default:
			for _, x := range n.A {
				visit(x)
			}
		}
	}
	visit(n)
	return
}

// buildC21 gives the condition and its arguments only
func buildC21(c caseC21, text string) (query string, args []any, err error) {
	dia := entDialects[c.Dia]
	mb := entFilter(text, dia, entGraph(), c.NoCast)
	if crash := guard(func() {
		switch c.Way {
		case 0:
			mb.SetTotal(c.Before)
			query, args = mb.Query()
			err = mb.Err()
		default:
			b := &sql.Builder{}
			b.SetDialect(dia)
			for i := 0; i < c.Before; i++ {
				b.Arg(-1 - i)
			}
			n := len(b.String())
			if c.Way == 1 {
				b.Join(mb)
			} else {
				mb.SQLBuilder = b
				mb.Query()
			}
			q, a := b.Query()
			query = q[n:]
			err = mb.Err()
			for i := 0; i < c.Before; i++ {
				if len(a) <= i || a[i] != any(-1-i) {
					err = failf("the arguments before are not the first ones: %v", a)
					return
				}
			}
			args = a[c.Before:]
		}
	}); crash != nil {
		return "", nil, failf("%s crashed: %v", quoteShort(text), crash)
	}
	if err != nil {
		return "", nil, failf("%s fails: %v", quoteShort(text), err)
	}
	return
}

// driverValue is what a driver gets for an argument
func driverValue(a any) (any, error) {
	v, err := driver.DefaultParameterConverter.ConvertValue(a)
	if err == nil && !driver.IsValue(v) {
		err = failf("%T is no driver value", v)
	}
	return v, err
}

func sameLit(lit any, arg any) bool {
	v, err := driverValue(arg)
	if err != nil {
		return false
	}
	if i, ok := lit.(int); ok {
		lit = int64(i)
	}
	return reflect.DeepEqual(lit, v)
}

func evalC21(c caseC21, r *Rec) error {
	pg := entDialects[c.Dia] == dialect.Postgres
	checkLits := func(text, query string, args []any, lits []litC21, empty bool) (string, error) {
		fail := func(format string, a ...any) (string, error) {
			return "", failf("%s: %s; built %s with %v", quoteShort(text), fmt.Sprintf(format, a...), query, args)
		}
		toks := sqlTokens(query)
		arg := 0
		li := 0
		for i := 0; i < len(toks); i++ {
			tok := toks[i]
			switch tok.Kind {
			case "bad", "comment", "string", "number":
				if tok.Kind == "number" && empty && (tok.Text == "0" || tok.Text == "1") {
					continue // 1 = 0 for an empty list
				}
				return fail("the SQL contains the %s %q", tok.Kind, tok.Text)
			case "word":
				if w := strings.ToUpper(tok.Text); !entWords[w] && !(empty && (w == "TRUE" || w == "FALSE")) {
					return fail("the SQL contains the word %q", tok.Text)
				}
				if strings.EqualFold(tok.Text, "NULL") {
					prev := ""
					if i > 0 {
						prev = strings.ToUpper(toks[i-1].Text)
					}
					if i > 1 && prev == "NOT" {
						prev = strings.ToUpper(toks[i-2].Text)
					}
					if prev == "IS" {
						continue
					}
					if li >= len(lits) || lits[li].v != nil {
						return fail("NULL does not stand for a null")
					}
					li++
				}
			case "quoted":
				if !entNames[tok.Text] && !entAlias.MatchString(tok.Text) {
					return fail("the SQL contains the name %q", tok.Text)
				}
			case "op":
				if tok.Text == "::" {
					return fail("a cast of something else")
				}
			case "param":
				want := "?"
				if pg {
					want = fmt.Sprintf("$%d", c.Before+arg+1)
				}
				if tok.Text != want {
					return fail("the parameter %d is %s, want %s", arg+1, tok.Text, want)
				}
				if arg >= len(args) {
					return fail("there are more parameters than arguments")
				}
				if li >= len(lits) {
					return fail("there are more parameters than literals")
				}
				if !sameLit(lits[li].v, args[arg]) {
					v, err := driverValue(args[arg])
					return fail("the argument %d is %#v (%v), want %#v", arg+1, v, err, lits[li].v)
				}
				cast := ""
				if i+2 < len(toks) && toks[i+1].Text == "::" {
					cast = strings.ToLower(toks[i+2].Text)
					i += 2
				}
				if cast != "" && (!pg || c.NoCast) {
					return fail("the cast %q", cast)
				}
				if pg && !c.NoCast {
					ok := cast == ""
					switch lits[li].v.(type) {
					case int:
						ok = intCasts[cast] || cast == "" && lits[li].inList
					case bool:
						ok = boolCasts[cast] || cast == "" && lits[li].inList
					}
					if !ok {
						return fail("the parameter %d, a %T, is cast to %q", arg+1, lits[li].v, cast)
					}
				}
				arg++
				li++
			}
		}
		if arg != len(args) {
			return fail("there are %d parameters for %d arguments", arg, len(args))
		}
		if li != len(lits) {
			return fail("there are %d values for %d literals", li, len(lits))
		}
		return query, nil
	}
	check := func(text string, tree *N) (string, error) {
		query, args, err := buildC21(c, text)
		if err != nil {
			return "", err
		}
		lits := entLits(tree)
		if !hasEmptyIn(tree) {
			return checkLits(text, query, args, lits, false)
		}
		// an empty list may be written as a null, not at all, or without what is looked for
		_, err = checkLits(text, query, args, lits, true)
		for _, tree := range []*N{tree, dropEmptyIn(tree)} {
			if err == nil {
				break
			}
			var some []litC21
			for _, l := range entLits(tree) {
				if !l.empty {
					some = append(some, l)
				}
			}
			if _, e := checkLits(text, query, args, some, true); e == nil {
				err = nil
			}
		}
		return query, err
	}
	r.NonTrivial(len(litsInOrder(c.Q.Tree)) > 0)
	labelTree(r, c.Q.Tree)
	q1, err := check(c.Q.Text, c.Q.Tree)
	if err != nil {
		return err
	}
	q2, err := check(c.Text, c.Other)
	if err != nil {
		return err
	}
	if q1 != q2 {
		return failf("%s and %s differ in literals only, but give\n %s\n %s", quoteShort(c.Q.Text), quoteShort(c.Text), q1, q2)
	}
	return nil
}

// ---- C22 ----

// pred is a combination of predicates
type predC22 struct {
	Op   string    `json:"op"`             // and, or, not, filter, app
	Q    *caseQ    `json:"q,omitempty"`    // filter
	Cond int       `json:"cond,omitempty"` // app
	Val  int       `json:"val,omitempty"`
	Xs   []predC22 `json:"xs,omitempty"`
	Dir  bool      `json:"direct,omitempty"`
}

type caseC22 struct {
	entData
	Ps     []predC22 `json:"ps"` // all of them, in calls of Where
	Dia    int       `json:"dialect"`
	NoCast bool      `json:"noCast"`
}

const entConds = 10

func entCond(k, v int) (*sql.Predicate, *N) {
	n := nInt(v)
	switch k {
	case 0:
		return sql.GT("age", v), nCmp(nID("age"), "gt", n)
	case 1:
		return sql.EQ("active", true), nCmp(nID("active"), "eq", nBool(true))
	case 2:
		return sql.IsNull("name"), nPred(nID("name"), "is null")
	case 3:
		return sql.NotNull("score"), nPred(nID("score"), "is not null")
	case 4:
		return sql.In("id", 1, 2, v), nCmp(nID("id"), "in", nArr(nInt(1), nInt(2), n))
	case 5:
		return sql.NotIn("age", 0, v), nCmp(nID("age"), "not in", nArr(nInt(0), n))
	case 6:
		return sql.Or(sql.EQ("name", "a"), sql.LTE("score", v)), nLogic(nCmp(nID("name"), "eq", nStr("a")), "or", nCmp(nID("score"), "lte", n))
	case 7:
		return sql.NEQ("full_name", "ab"), nCmp(nID("full_name"), "neq", nStr("ab"))
	case 8:
		return sql.LT("id", v), nCmp(nID("id"), "lt", n)
	}
	return sql.And(sql.GTE("id", 2), sql.LT("age", v)), nLogic(nCmp(nID("id"), "gte", nInt(2)), "and", nCmp(nID("age"), "lt", n))
}

func genPred(t *rapid.T, g *condGen, d int) predC22 {
	k := pick(t, 6)
	if d <= 0 {
		k = pick(t, 2)
	}
	switch k {
	case 0:
		q := writeQ(t, g.query(t))
		return predC22{Op: "filter", Q: &q, Dir: chance(t, 4)}
	case 1:
		return predC22{Op: "app", Cond: pick(t, entConds), Val: pick(t, 8)}
	case 2:
		return predC22{Op: "not", Xs: []predC22{genPred(t, g, d-1)}}
	}
	p := predC22{Op: oneOf(t, []string{"and", "or"})}
	// ent loses the parentheses around a combination of one
	for i := 2 + pick(t, 2); i > 0; i-- {
		p.Xs = append(p.Xs, genPred(t, g, d-1))
	}
	return p
}

func genC22(t *rapid.T) (c caseC22) {
	g := entGen("Item")
	g.noNB = true
	if chance(t, 4) {
		c.entData = genEntData(t)
		g = edgeGen("Item")
		g.noNB = true
		// edges have generators of their own
		g.edge = func(t *rapid.T, d int) *N {
			return noNegRange(genEdge(t, "Item", d))
		}
	} else {
		c.Items = genRows(t, itemCols, 3+pick(t, 8))
	}
	q := writeQ(t, g.query(t))
	c.Ps = append(c.Ps, predC22{Op: "filter", Q: &q})
	for i := pick(t, 3); i > 0; i-- {
		p := pick(t, len(c.Ps)+1)
		c.Ps = append(c.Ps[:p:p], append([]predC22{genPred(t, g, pick(t, 3))}, c.Ps[p:]...)...)
	}
	if pick(t, 3) == 2 {
		c.Ps = []predC22{genPred(t, g, 3)}
	}
	echo(t, c.Items, itemCols, q.Tree)
	c.Dia, c.NoCast = pick(t, 3), pick(t, 2) == 1
	return
}

// noNegRange leaves the recorded exception out
func noNegRange(n *N) *N {
	return n.mapTree(func(n *N) *N {
		if n.K == "between" {
			n.Op = "between"
		}
		return n
	})
}

func evalC22(c caseC22, r *Rec) error {
	c.fill()
	dia := entDialects[c.Dia]
	g := entGraph()
	filters := 0
	var build func(p predC22) (*sql.Predicate, *N)
	build = func(p predC22) (*sql.Predicate, *N) {
		var ps []*sql.Predicate
		var n *N
		for _, x := range p.Xs {
			q, m := build(x)
			ps = append(ps, q)
			m = nParen(m)
			if n == nil {
				n = m
			} else {
				n = nLogic(n, p.Op, m)
			}
		}
		switch p.Op {
		case "filter":
			filters++
			return entP(entFilter(p.Q.Text, dia, g, c.NoCast), p.Dir), p.Q.Tree
		case "app":
			return entCond(p.Cond, p.Val)
		case "not":
			return sql.Not(ps[0]), nNot(n)
		case "and":
			return sql.And(ps...), n
		}
		return sql.Or(ps...), n
	}
	var ids []int64
	var err error
	var query string
	var all []*N
	if crash := guard(func() {
		s := entSelect(dia)
		for _, p := range c.Ps {
			q, n := build(p)
			s.Where(q)
			all = append(all, n)
		}
		var args []any
		query, args = s.Query()
		if err = s.Err(); err != nil {
			return
		}
		q := query
		if dia == dialect.Postgres {
			q = toSQLite(q)
		}
		ids, err = queryIDs(q, args...)
	}); crash != nil {
		return failf("crashed: %v", crash)
	}
	if limited(r, err, query) {
		return nil
	}
	if err != nil {
		return failf("fails: %v; built %s", err, query)
	}
	var want []int64
	for i := range c.Items {
		ok := true
		for _, n := range all {
			ok = ok && c.env("Item", int64(i+1)).Holds(n)
		}
		if ok {
			want = append(want, int64(i+1))
		}
	}
	r.Label("filters: %d", min(filters, 5))
	r.NonTrivial(filters > 0 && len(want) > 0 && len(want) < len(c.Items))
	if !sameIDs(ids, want) {
		return failf("the rows are %v, want %v; built %s", sortedIDs(ids), want, query)
	}
	return nil
}

// ---- C23 ----

type caseC23 struct {
	entData
	Root   string `json:"root"`
	Q      caseQ  `json:"q"`
	Dia    int    `json:"dialect"`
	Way    int    `json:"way"`
	NoCast bool   `json:"noCast"`
	Schema bool   `json:"schema,omitempty"` // the nodes name the schema of their tables
}

func genC23(t *rapid.T) (c caseC23) {
	c.entData = genEntData(t)
	c.Root = oneOf(t, []string{"Item", "Item", "Item", "Tag", "Owner", "Detail"})
	var n *N
	if pick(t, 2) == 0 {
		n = genEdge(t, c.Root, pick(t, 5))
	} else {
		n = edgeGen(c.Root).cond(t, 1+pick(t, 4))
	}
	switch pick(t, 5) {
	case 3:
		n = nNot(n)
	case 4:
		n = nLogic(n, oneOf(t, []string{"or", "and"}), genEdge(t, c.Root, pick(t, 4)))
	}
	c.Q = writeQ(t, Fix(noNegRange(n)))
	c.Dia, c.Way, c.NoCast, c.Schema = pick(t, 3), pick(t, entWays), pick(t, 2) == 1, chance(t, 4)
	return
}

func edgeDepth(n *N) int {
	d := 0
	for _, x := range n.A {
		d = max(d, edgeDepth(x))
	}
	if n.K == "func" && n.S == "has_edge" {
		d++
	}
	return d
}

func evalC23(c caseC23, r *Rec) error {
	c.fill()
	dia := entDialects[c.Dia]
	want := c.wantOf(c.Root, r, c.Q.Tree, false, "")
	c.Q.Tree.walk(func(n *N) {
		if n.K == "func" && n.S == "has_edge" {
			if len(n.A) == 1 {
				r.Label("any %s", n.A[0].S)
			} else {
				r.Label("with %s", n.A[0].S)
			}
		}
	})
	r.Label("root %s", c.Root)
	r.Label("depth %d", edgeDepth(c.Q.Tree))
	r.NonTrivial(edgeDepth(c.Q.Tree) > 0 && len(want) > 0 && len(want) < len(c.rows(c.Root)))
	var ids []int64
	var query string
	var err error
	if crash := guard(func() {
		g := entGraph()
		if c.Schema {
			for _, n := range g.Nodes {
				n.Schema = "main"
			}
		}
		mb := entFilter(c.Q.Text, dia, g, c.NoCast)
		mb.Node = entNode(g, c.Root)
		ids, query, err = entIDsOf(c.Root, mb, dia, c.Way)
	}); crash != nil {
		return failf("%s crashed: %v", quoteShort(c.Q.Text), crash)
	}
	if limited(r, err, c.Q.Text) {
		return nil
	}
	if err != nil {
		return failf("%s fails: %v; built %s", quoteShort(c.Q.Text), err, query)
	}
	if !sameIDs(ids, want) {
		return failf("%s selects the rows %v, want %v; built %s", quoteShort(c.Q.Text), sortedIDs(ids), want, query)
	}
	return nil
}

// ---- C24 ----

type caseC24 struct {
	Text   string `json:"text"`
	Why    string `json:"why"`
	Dia    int    `json:"dialect"`
	NoCast bool   `json:"noCast"`
	NoNode bool   `json:"noNode"`
	Use    int    `json:"use"`
	Before int    `json:"before"`
}

func genC24(t *rapid.T) (c caseC24) {
	c.Dia, c.NoCast, c.Use = pick(t, 3), pick(t, 2) == 1, pick(t, 7)
	c.Before = pick(t, 3)
	if pick(t, 4) == 3 {
		for i := 0; i < 3; i++ {
			s := genMutant(t)
			if _, ok := refParse(s); !ok {
				c.Text, c.Why = s, "bad syntax"
				return
			}
		}
		c.Text, c.Why = Write(t, entGen("Item").query(t), Loose)+oneOf(t, []string{")", " and", " or", " =", " '", "(", " x", ",", " --", ";"}), "bad syntax"
		return
	}
	if chance(t, 40) {
		c.Text, c.Why = genNothing(t), "no condition"
		return
	}
	typ := "Item"
	var wrap []string // the edges around
	for i := pick(t, 4); i > 0; i-- {
		var s []edgeDef
		for _, e := range entEdges {
			if e.From == typ {
				s = append(s, e)
			}
		}
		e := oneOf(t, s)
		wrap = append(wrap, e.Name)
		typ = e.To
	}
	g := edgeGen(typ)
	ident := oneOf(t, entCols[typ]).Name
	var n *N
	switch pick(t, 12) {
	case 0:
		n, c.Why = nPred(nID(ident), oneOf(t, predOps[2:])), "predicate"
	case 1:
		n, c.Why = nRef([]string{"a", "b", ident, "id"}[pick(t, 4):]...), "reference"
		if len(n.Names) == 1 {
			n.Names = append(n.Names, oneOf(t, []string{"id", "x", "name"}))
		}
		if pick(t, 2) == 1 {
			n = nCmp(n, oneOf(t, cmpOps), nInt(1))
		}
	case 2:
		n, c.Why = nFn(oneOf(t, []string{"lower", "DATE", "Has_edge", "count", "dates", "has_edges", "hasEdge", "now"}), g.col(t, 'i')), "function"
	case 3:
		n, c.Why = nCmp(nFn("date"), "eq", nInt(1)), "date without argument"
	case 4:
		n, c.Why = nCmp(nFn("date", g.col(t, 'i'), g.col(t, 'i')), "eq", nInt(1)), "date with arguments"
	case 5:
		n, c.Why = nFn("has_edge", nID(oneOf(t, []string{"nope", "Owner", "OWNER", "owners", "item_tags", "id", "name", "Children", "prev_item"}))), "unknown edge"
	case 6:
		n, c.Why = nFn("has_edge"), "no edge"
	case 7:
		n, c.Why = nFn("has_edge", oneOf(t, []*N{nInt(1), nStr("owner"), nStr("items"), nNull(), nBool(true), nRef("owner", "name")})), "no edge name"
	case 8:
		e := oneOf(t, entEdges)
		n, c.Why = nFn("has_edge", nID(e.Name), nCmp(nID("id"), "eq", nInt(1)), nCmp(nID("id"), "eq", nInt(2))), "three arguments"
	case 9:
		e := oneOf(t, entEdges)
		n, c.Why = nFn("has_edge", nID(e.Name), oneOf(t, []*N{nInt(1), nStr("x"), nBool(true), nNull(), nID("id")})), "no condition"
	case 10:
		n, c.Why = nFn("has_edge", nID("nope"), nCmp(nID("id"), "eq", nInt(1))), "unknown edge"
	case 11:
		n, c.Why = nFn("has_edge", nID(oneOf(t, entEdges).Name)), "no node"
		if len(wrap) > 0 {
			n = nCmp(nID("id"), "eq", nInt(1))
		}
		c.NoNode = true
	}
	inner := func(n *N) *N {
		for i := pick(t, 3); i > 0; i-- {
			switch pick(t, 12) {
			case 6:
				n = nCmp(nFn("date", n), "eq", nStr("2024-01-01"))
			case 7:
				n = nCmp(nID("id"), cmpOps[pick(t, len(cmpOps))], nParen(n))
			case 8:
				n = nBetween(oneOf(t, []string{"between", "not between"}), nParen(n), nInt(1), nInt(2))
			case 9:
				n = nPred(nParen(n), oneOf(t, predOps[:2]))
			case 10:
				n = nCmp(nParen(n), oneOf(t, []string{"in", "not in"}), nArr(nInt(1), nInt(2)))
			case 11:
				n = nNot(nParen(n))
			case 0:
				n = nLogic(nCmp(nID("id"), "gt", nInt(pick(t, 9))), oneOf(t, []string{"or", "and"}), n)
			case 1:
				n = nLogic(n, oneOf(t, []string{"or", "and"}), nCmp(nID("id"), "gt", nInt(pick(t, 9))))
			case 2:
				n = nNot(n)
			case 3:
				n = nParen(n)
			case 4:
				n = nLogic(nPred(nID("id"), "is null"), oneOf(t, []string{"or", "and"}), n)
			case 5:
				n = nCmp(nParen(n), "eq", nBool(true))
			}
		}
		return n
	}
	if !c.NoNode && pick(t, 2) == 1 {
		g := edgeGen("Item")
		c.Text = Write(t, Fix(replaceAny(t, g.query(t), inner(n))), Style(pick(t, 3)))
		return
	}
	n = inner(n)
	for i := len(wrap) - 1; i >= 0; i-- {
		n = inner(nFn("has_edge", nID(wrap[i]), n))
	}
	c.Text = Write(t, Fix(n), Style(pick(t, 3)))
	return
}

func evalC24(c caseC24, r *Rec) error {
	dia := entDialects[c.Dia]
	var g *sqlgraph.Schema
	if !c.NoNode {
		g = entGraph()
	}
	r.Label(c.Why)
	r.Label("use %d", c.Use)
	r.Label("depth %d", min(4, strings.Count(c.Text, "has_edge")))
	r.NonTrivial(true)
	mb := entFilter(c.Text, dia, g, c.NoCast)
	what := fmt.Sprintf("%s (%s), use %d,", quoteShort(c.Text), c.Why, c.Use)
	var query string
	var args []any
	var selErr error
	sel := c.Use != 0 && c.Use != 6
	contributed := func() (string, []any) { return query, args }
	if crash := guard(func() {
		app := func() *sql.Predicate { return sql.GT("id", 3) }
		s := entSelect(dia)
		for i := 0; i < c.Before; i++ {
			s.Where(app())
		}
		plain, _ := s.Clone().Query()
		switch c.Use {
		case 0:
			query, args = mb.Query()
		case 1:
			s.Where(entP(mb, false))
		case 2:
			s.Where(sql.And(app(), entP(mb, false)))
		case 3:
			s.Where(sql.Or(entP(mb, false), app()))
		case 4:
			s.Where(entP(mb, false)).Where(app())
		case 5:
			s.Where(entP(mb, true))
		case 6:
			b := &sql.Builder{}
			b.SetDialect(dia)
			b.WriteString("x")
			b.Join(mb)
			q, a := b.Query()
			query, args, selErr = q[1:], a, b.Err()
			if selErr == nil {
				selErr = errNone
			}
		}
		if sel {
			_, _ = s.Query()
			selErr = s.Err()
			if selErr == nil {
				selErr = errNone
			}
			_ = plain
			// asked again it is still an error, and no SQL
			query, args = "", nil
			if c.Use != 5 {
				query, args = mb.Query()
			}
		}
	}); crash != nil {
		return failf("%s crashed: %v", what, crash)
	}
	if mb.Err() == nil {
		q, a := contributed()
		return failf("%s reports no error; built %q with %v", what, q, a)
	}
	if selErr == errNone {
		return failf("%s reports no error on the selection", what)
	}
	if query != "" || len(args) > 0 {
		return failf("%s reports %v, but contributes %q with %v", what, mb.Err(), query, args)
	}
	return nil
}

var errNone = fmt.Errorf("no error")

// ---- C25 ----

type useC25 struct {
	Dia    int `json:"dialect"`
	Before int `json:"before"`
	How    int `json:"how"`
}

type caseC25 struct {
	Texts  []string `json:"texts"`
	Uses   []useC25 `json:"uses"`
	NoCast bool     `json:"noCast"`
	Procs  int      `json:"procs"`
}

const entHows = 6

// genBefore draws the number of arguments before a filter
func genBefore(t *rapid.T) int {
	if chance(t, 6) {
		return oneOf(t, []int{9, 10, 31, 64, 99, 100, 101, 130})
	}
	return pick(t, 4)
}

func genC25(t *rapid.T) (c caseC25) {
	for i := 1 + pick(t, 3); i > 0; i-- {
		if chance(t, 5) {
			c.Texts = append(c.Texts, genMutant(t))
			continue
		}
		c.Texts = append(c.Texts, Write(t, edgeGen("Item").query(t), Loose))
	}
	for i := 2 + pick(t, 6); i > 0; i-- {
		c.Uses = append(c.Uses, useC25{pick(t, 3), genBefore(t), pick(t, entHows)})
	}
	c.NoCast = pick(t, 2) == 1
	if pick(t, 2) == 1 {
		c.Procs = 2 + pick(t, 3)
	}
	return
}

// useEnt uses a filter in some way and tells what came out
func useEnt(mb *entmq.MiniQLToEntSQLBuilder, u useC25) string {
	dia := entDialects[u.Dia]
	var q string
	var args []any
	var err error
	before := func(b *sql.Builder) {
		b.SetDialect(dia)
		for i := 0; i < u.Before; i++ {
			b.Arg(-1 - i)
		}
	}
	switch u.How {
	case 0:
		mb.SetDialect(dia)
		mb.SetTotal(u.Before)
		q, args = mb.Query()
	case 1:
		b := &sql.Builder{}
		before(b)
		b.Join(mb)
		q, args = b.Query()
		err = b.Err()
	case 2:
		b := &sql.Builder{}
		before(b)
		mb.SQLBuilder = b
		own, ownArgs := mb.Query()
		mb.SQLBuilder = nil
		if mb.Err() == nil {
			q, args = b.Query()
		}
		q += "|" + own
		args = append(args[:len(args):len(args)], ownArgs...)
	case 3:
		s := entSelect(dia)
		for i := 0; i < u.Before; i++ {
			s.Where(sql.GT("id", -1-i))
		}
		s.Where(entP(mb, false))
		q, args = s.Query()
		err = s.Err()
	case 4:
		s := entSelect(dia)
		s.Where(sql.Or(sql.GT("id", u.Before), entP(mb, false)))
		q, args = s.Query()
		err = s.Err()
	case 5:
		s := entSelect(dia)
		s.Where(sql.Not(entP(mb, false)))
		q, args = s.Query()
	}
	var vals []any
	for _, a := range args {
		v, e := driverValue(a)
		vals = append(vals, v, e)
	}
	// which error, and how often it is listed, does not matter
	return fmt.Sprintf("%s %#v %v %v", q, vals, err != nil, mb.Err() != nil)
}

func evalC25(c caseC25, r *Rec) error {
	g := entGraph()
	fresh := func(text string) *entmq.MiniQLToEntSQLBuilder {
		mb := &entmq.MiniQLToEntSQLBuilder{QueryString: text, DisableTypeCasting: c.NoCast}
		mb.Node, mb.Graph = entNode(g, "Item"), g
		return mb
	}
	r.NonTrivial(len(c.Uses) > 1)
	r.Label("goroutines: %d", c.Procs)
	all := func() error {
		for _, text := range c.Texts {
			shared := fresh(text)
			for i, u := range c.Uses {
				var got, want string
				if crash := guard(func() { want = useEnt(fresh(text), u) }); crash != nil {
					return failf("%s crashed: %v", quoteShort(text), crash)
				}
				if crash := guard(func() { got = useEnt(shared, u) }); crash != nil {
					return failf("%s crashed: %v", quoteShort(text), crash)
				}
				if got != want {
					return failf("%s, use %d (%+v), gives\n %s\na fresh filter\n %s", quoteShort(text), i, u, got, want)
				}
			}
		}
		return nil
	}
	if c.Procs == 0 {
		return all()
	}
	// before anything else has been used
	start := make(chan struct{})
	var wg sync.WaitGroup
	errs := make([]error, c.Procs)
	for p := range errs {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			<-start
			errs[p] = all()
		}(p)
	}
	close(start)
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return failf("in %d goroutines: %v", c.Procs, err)
		}
	}
	return all()
}

// ---- C26 ----

type caseC26 struct {
	Name  string   `json:"name"`
	Want  string   `json:"want,omitempty"` // empty: only the alphabet is known
	Dia   int      `json:"dialect"`
	Ref   []string `json:"ref,omitempty"`
	Form  int      `json:"form"`
	Known int      `json:"known,omitempty"`
}

func genC26(t *rapid.T) (c caseC26) {
	c.Dia, c.Form = pick(t, 3), pick(t, 8)
	word := func() string {
		if pick(t, 3) == 2 {
			return oneOf(t, []string{"user", "name", "created", "at", "phone", "number", "is", "full", "order", "by", "type", "first", "in", "not", "desc", "count"})
		}
		s := ""
		for i := 2 + pick(t, 6); i > 0; i-- {
			s += string(rune('a' + pick(t, 26)))
		}
		return s
	}
	title := func(s string) string { return strings.ToUpper(s[:1]) + s[1:] }
	abbr := func() string {
		if pick(t, 2) == 1 {
			return oneOf(t, []string{"ID", "URL", "HTTP", "UUID", "API", "DB", "IP"})
		}
		return strings.ToUpper(word()[:2])
	}
	switch pick(t, 5) {
	case 0: // lower case, anything goes
		s := ""
		for i := 1 + pick(t, 10); i > 0; i-- {
			s += oneOf(t, []string{"a", "b", "z", "q", "_", "1", "9", "0", "__", "id", "x"})
		}
		if !identRe(s) {
			s = "a" + s
		}
		c.Name, c.Want = s, s
	case 1, 2: // camel case
		var words []string
		prevAbbr := false
		for i, n := 0, 1+pick(t, 4); i < n; i++ {
			w := word()
			if i > 0 && chance(t, 6) {
				// as in fooBar_baz
				c.Name += "_"
				if pick(t, 2) == 1 {
					w = title(w)
				}
				prevAbbr = false
				c.Name += w
				words = append(words, strings.ToLower(w))
				continue
			}
			switch {
			case !prevAbbr && chance(t, 4):
				w = abbr()
				prevAbbr = true
			default:
				if i > 0 || pick(t, 2) == 1 {
					w = title(w)
				}
				prevAbbr = false
			}
			c.Name += w
			words = append(words, strings.ToLower(w))
		}
		c.Want = strings.Join(words, "_")
	case 3:
		c.Name = genName(t)
		if pick(t, 2) == 1 {
			// forms without one fixed result
			c.Name = oneOf(t, []string{"", word(), title(word()), word() + "_"}) + abbr() + oneOf(t, []string{"s", "1", "2x", "es", "v", "_", "s" + title(word()), "10" + abbr()})
		}
		if c.Name == strings.ToLower(c.Name) {
			c.Want = c.Name
		}
	case 4:
		c.Ref = []string{genName(t), genName(t)}
		for chance(t, 3) {
			c.Ref = append(c.Ref, genName(t))
		}
		c.Known = pick(t, 4)
		return
	}
	if isReserved(c.Name) || !identRe(c.Name) {
		c.Name += "_x"
		c.Want = ""
		if c.Name == strings.ToLower(c.Name) {
			c.Want = c.Name
		}
	}
	return
}

func evalC26(c caseC26, r *Rec) error {
	dia := entDialects[c.Dia]
	r.NonTrivial(true)
	name := c.Name
	if len(c.Ref) > 0 {
		name = strings.Join(c.Ref, ".")
	}
	text := fmt.Sprintf([]string{"%s = 1", "1 < %s", "%s is null", "%s in (1, 2)", "not (%s like 'x')", "date(%s) = 'x'", "%s between 1 and 2", "(%s)"}[c.Form], name)
	mb := entFilter(text, dia, nil, false)
	if len(c.Ref) > 0 && c.Known > 0 {
		// names of the table and of an edge are no exception
		g := entGraph()
		mb.Node = entNode(g, "Item")
		c.Ref[0] = mb.Node.Table
		if c.Known == 2 {
			mb.Graph = g
			c.Ref[0] = slices.Sorted(maps.Keys(mb.Node.Edges))[c.Form%len(mb.Node.Edges)]
		}
		if c.Known == 3 {
			c.Ref[0] = mb.Node.Type
		}
		c.Ref[1] = "name"
		mb.QueryString = strings.ReplaceAll(text, name, strings.Join(c.Ref, "."))
		text = mb.QueryString
	}
	var q string
	if crash := guard(func() { q, _ = mb.Query() }); crash != nil {
		return failf("%s crashed: %v", text, crash)
	}
	if len(c.Ref) > 0 {
		r.Label("dotted")
		if mb.Err() == nil || q != "" {
			return failf("%s is not refused: %s", text, q)
		}
		return nil
	}
	if mb.Err() != nil {
		return failf("%s fails: %v", text, mb.Err())
	}
	found := 0
	for _, tok := range sqlTokens(q) {
		switch tok.Kind {
		case "bad", "string", "comment", "number":
			return failf("%s gives %s with the %s %q", text, q, tok.Kind, tok.Text)
		case "word":
			if w := strings.ToUpper(tok.Text); !entWords[w] && w != "BIGINT" && !intCasts[strings.ToLower(w)] {
				return failf("%s gives %s with the word %q", text, q, tok.Text)
			}
		case "quoted":
			found++
			if strings.Trim(tok.Text, "abcdefghijklmnopqrstuvwxyz0123456789_") != "" || tok.Text == "" {
				return failf("%s gives the column %q: %s", text, tok.Text, q)
			}
			if plain := func(s string) string { return strings.ReplaceAll(strings.ToLower(s), "_", "") }; plain(tok.Text) != plain(c.Name) {
				return failf("%s gives the column %q, which is another word: %s", text, tok.Text, q)
			}
			if c.Want != "" && tok.Text != c.Want {
				return failf("%s gives the column %q, want %q: %s", text, tok.Text, c.Want, q)
			}
			quote := "`"
			if dia == dialect.Postgres {
				quote = `"`
			}
			if !strings.Contains(q, quote+tok.Text+quote) {
				return failf("%s gives %s, not quoted for %s", text, q, dia)
			}
		}
	}
	switch {
	case c.Want == "":
		r.Label("other")
	case c.Want == c.Name:
		r.Label("lower case")
	default:
		r.Label("camel case")
	}
	want := 1
	if c.Form == 6 {
		want = 2
	}
	if found != want {
		return failf("%s gives %s with %d names", text, q, found)
	}
	return nil
}

func init() {
	register(Prop{ID: "C20", Quick: 200000, Thor: 500000,
		Rule: "typed conditions over a table of random rows, built for 3 dialects and used in 4 ways; non-trivial: a query selects some but not all rows"}, genC20, evalC20)
	register(Prop{ID: "C21", Quick: 300000, Thor: 800000,
		Rule: "conditions with marked literals, built for 3 dialects after 0 to 130 arguments, and the same with other literals; non-trivial: at least one literal"}, genC21, evalC21)
	register(Prop{ID: "C22", Quick: 160000, Thor: 500000,
		Rule: "random combinations of filters and other predicates; non-trivial: a filter is used and some but not all rows are selected"}, genC22, evalC22)
	register(Prop{ID: "C23", Quick: 200000, Thor: 600000,
		Rule: "conditions on 18 kinds of edges over random tables, nested; non-trivial: an edge is used and some but not all rows are selected"}, genC23, evalC23)
	register(Prop{ID: "C24", Quick: 500000, Thor: 2000000,
		Rule: "queries that cannot be translated, the reason at any depth of edges, used in 7 ways; every case is non-trivial"}, genC24, evalC24)
	register(Prop{ID: "C25", Quick: 10000, Thor: 50000, Race: true, Procs: 4,
		Rule: "filters used again and again in different ways, and in goroutines, under the race detector; non-trivial: 2 uses or more"}, genC25, evalC25)
	register(Prop{ID: "C26", Quick: 600000, Thor: 3000000,
		Rule: "lower case, camel case, other and dotted names in 8 kinds of conditions and 3 dialects; every case is non-trivial"}, genC26, evalC26)
}
