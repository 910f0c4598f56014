package main

import (
	"fmt"
	"strings"

	"entgo.io/ent/dialect"
	"entgo.io/ent/entql"
	"github.com/wenerme/go-miniquery/miniquery"
	"gorm.io/gorm"
	"pgregory.net/rapid"
)

// ---- C06 ----

type caseC06 struct {
	Tree  *N       `json:"tree,omitempty"`
	Texts []string `json:"texts,omitempty"`
	// an operator and ways to write it
	Op    string   `json:"op,omitempty"`
	Words []string `json:"words,omitempty"`
}

var opNames = func() (s []string) {
	for _, op := range []string{"eq", "neq", "gt", "gte", "lt", "lte", "like", "not like", "in", "not in", "and", "or", "between", "not between"} {
		s = append(s, op)
	}
	return append(s, predOps...)
}()

func genC06(t *rapid.T) (c caseC06) {
	switch pick(t, 5) {
	case 0:
		c.Op = oneOf(t, opNames)
		w := &writer{t: t, style: Wild}
		for i := 1 + pick(t, 3); i > 0; i-- {
			w.sb.Reset()
			sp := oneOf(t, opSpellings[c.Op])
			for j, word := range strings.Split(sp, " ") {
				if j > 0 {
					w.space()
				}
				w.sb.WriteString(w.keyword(word))
			}
			c.Words = append(c.Words, w.sb.String())
		}
		return
	case 1:
		c.Tree = genTree(t)
	case 2:
		c.Tree = edgeGen("Item").query(t)
	case 3:
		g := gormGen()
		g.ref = relatedRef
		c.Tree = g.query(t)
	case 4:
		c.Tree = entqlGen().query(t)
	}
	c.Texts = []string{Write(t, c.Tree, Plain)}
	for i := 1 + pick(t, 2); i > 0; i-- {
		c.Texts = append(c.Texts, Write(t, c.Tree, oneOf(t, []Style{Wild, Wild, Loose})))
	}
	return
}

var gormDry *gorm.DB

// filtersOf tells what every backend makes of a query
func filtersOf(text string) (s []string, crash error) {
	crash = guard(func() {
		sql, vars, err := drySQL(gormDry, 0, 0, text)
		if err != nil {
			sql, vars = "", nil
		}
		s = append(s, fmt.Sprintf("gorm %s %#v %v", sql, vars, err != nil))
		for _, dia := range entDialects {
			mb := entFilter(text, dia, entGraph(), false)
			q, args := mb.Query()
			var vals []any
			for _, a := range args {
				v, err := driverValue(a)
				vals = append(vals, v, err)
			}
			s = append(s, fmt.Sprintf("%s %s %#v %v", dia, q, vals, mb.Err() != nil))
		}
		p, err, crash := buildEntQL(text, 0)
		if crash != nil {
			panic(crash)
		}
		ql := ""
		if err == nil && p != nil {
			ql = shape(p)
		}
		s = append(s, fmt.Sprintf("entql %s %v", ql, err != nil))
	})
	return
}

func evalC06(c caseC06, r *Rec) error {
	if c.Tree == nil {
		r.Label("operator")
		r.NonTrivial(len(c.Words) > 0)
		for _, w := range append([]string{c.Op}, c.Words...) {
			var got, again string
			if crash := guard(func() { got = miniquery.NormalizeOperation(w); again = miniquery.NormalizeOperation(got) }); crash != nil {
				return failf("%q crashed: %v", w, crash)
			}
			if got != c.Op {
				return failf("the operator %q is normalised to %q, want %q", w, got, c.Op)
			}
			if again != got {
				return failf("the operator %q is normalised to %q, and that to %q", w, got, again)
			}
		}
		return nil
	}
	if gormDry == nil {
		gormDry = openGorm(nil)
	}
	var first []string
	differ := false
	for i, text := range c.Texts {
		_, n, err := mustParse(text)
		if err != nil {
			return err
		}
		if err := sameTree(text, n, c.Tree); err != nil {
			return err
		}
		got, crash := filtersOf(text)
		if crash != nil {
			return failf("%s crashed: %v", quoteShort(text), crash)
		}
		if i == 0 {
			first = got
			for _, s := range got {
				if strings.HasSuffix(s, "false") {
					r.Label("filter of %s", strings.Fields(s)[0])
				}
			}
			continue
		}
		differ = differ || text != c.Texts[0]
		for k := range got {
			if got[k] != first[k] {
				return failf("%s and %s are written differently only, but give\n %s\n %s", quoteShort(c.Texts[0]), quoteShort(text), first[k], got[k])
			}
		}
	}
	r.NonTrivial(differ)
	return nil
}

// ---- C29 ----

type caseC29 struct {
	Rows [][]V   `json:"rows"`
	Q    []caseQ `json:"q"`
	Dia  int     `json:"dialect"`
	Way  int     `json:"way"`
	Read int     `json:"read"`
}

func genC29(t *rapid.T) (c caseC29) {
	for i := 1 + pick(t, 3); i > 0; i-- {
		g := entqlGen()
		if pick(t, 2) == 1 {
			g = &condGen{cols: itemCols, name: g.name, noTF: true, nests: true}
		}
		g.mix = pick(t, 3) > 0
		g.noNB = true
		c.Q = append(c.Q, writeQ(t, g.query(t)))
	}
	c.Rows = genRows(t, itemCols, 3+genRowCount(t))
	for _, row := range c.Rows {
		if chance(t, 3) {
			k := 1 + pick(t, len(row)-1)
			row[k] = genRowValue(t, oneOf(t, valueTypes))
		}
	}
	echoQ(t, c.Rows, c.Q)
	c.Dia, c.Way = pick(t, 3), pick(t, entWays)
	return
}

func evalC29(c caseC29, r *Rec) error {
	fill("items", colNames(itemCols), c.Rows)
	dia := entDialects[c.Dia]
	for _, q := range c.Q {
		what := quoteShort(q.Text)
		var ids [3][]int64
		var sent [3]string
		var errs [3]error
		if crash := guard(func() {
			db := openGorm(nil).Model(&Item{})
			ids[0], errs[0] = readItems(applyGorm(db, c.Way, q.Text), 0)
			sent[0] = strings.Join(thePoolSent(), "; ")
			ids[1], sent[1], errs[1] = entIDs(entFilter(q.Text, dia, nil, false), dia, c.Way)
		}); crash != nil {
			return failf("%s crashed: %v", what, crash)
		}
		n := 2
		p, err, crash := buildEntQL(q.Text, 0)
		if crash != nil {
			return failf("%s crashed: %v", what, crash)
		}
		if class := entqlClass(q.Tree); class == qlOK {
			if err != nil {
				return failf("%s: entql refuses it: %v", what, err)
			}
			n = 3
			if crash := guard(func() { ids[2], sent[2], errs[2] = entqlIDs([]entql.P{p}, dialect.SQLite) }); crash != nil {
				return failf("%s crashed: %v", what, crash)
			}
		}
		r.Label("backends: %d", n)
		r.NonTrivial(len(ids[0]) > 0 && len(ids[0]) < len(c.Rows))
		for k := 0; k < n; k++ {
			if limited(r, errs[k], q.Text) {
				return nil
			}
			if errs[k] != nil {
				return failf("%s fails with %s: %v; built %s", what, backends[k], errs[k], sent[k])
			}
			if !sameIDs(ids[k], ids[0]) {
				return failf("%s selects the rows %v with gorm, but %v with %s\n %s\n %s", what, sortedIDs(ids[0]), sortedIDs(ids[k]), backends[k], sent[0], sent[k])
			}
		}
	}
	return nil
}

var backends = []string{"gorm", "ent SQL", "entql"}

func init() {
	register(Prop{ID: "C06", Quick: 200000, Thor: 600000,
		Rule: "trees written down in 2 or 3 ways, given to every backend, and operators in all spellings; non-trivial: the texts differ"}, genC06, evalC06)
	register(Prop{ID: "C29", Quick: 100000, Thor: 400000,
		Rule: "conditions comparing values of the same and of different types on tables with values of any type; non-trivial: a query selects some but not all rows"}, genC29, evalC29)
}
