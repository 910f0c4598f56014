package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/wenerme/go-miniquery/gormq"
	"gorm.io/gorm"
	"gorm.io/gorm/clause"
	"pgregory.net/rapid"
)

type caseQ struct {
	Tree *N     `json:"tree"`
	Text string `json:"text"`
}

func anySpelling(t *rapid.T, c column) string { return oneOf(t, c.Gorm) }

func gormGen() *condGen { return &condGen{cols: itemCols, name: anySpelling} }

func writeQ(t *rapid.T, n *N) caseQ {
	return caseQ{n, Write(t, n, Style(pick(t, 3)))}
}

// spellings of columns, for the evaluator
func gormIndex(cols []column) map[string]int {
	m := map[string]int{}
	for i, c := range cols {
		for _, s := range c.Gorm {
			m[s] = i
		}
	}
	return m
}

var gormItemIndex = gormIndex(itemCols)

func rowEnv(row []V, index map[string]int) *Env {
	return &Env{Col: func(name string) V {
		i, ok := index[name]
		if !ok {
			panic("unknown column " + name)
		}
		return row[i]
	}}
}

func matching(rows [][]V, holds func(row []V) bool) (ids []int64) {
	for _, r := range rows {
		if holds(r) {
			ids = append(ids, *r[0].I)
		}
	}
	return
}

// ---- ways to apply a filter, and to read ----

const applyWays = 5

func applyGorm(db *gorm.DB, way int, q string) *gorm.DB {
	switch way {
	case 0:
		return db.Scopes(gormq.ApplyMiniQuery(q))
	case 1:
		return db.Scopes(gormq.MiniQuery{Query: []string{q}}.Scope)
	case 2:
		return gormq.WireMiniQuery(db, q)
	case 3:
		return gormq.MiniQuery{Query: []string{q}}.Scope(db)
	}
	return gormq.ApplyMiniQuery(q)(db)
}

const readWays = 7

func itemModel(k int) any {
	switch k {
	case 0:
		return &Item{}
	case 1:
		return Item{}
	}
	return &[]Item{}
}

const tableForms = 6

// genTable draws the form of the table
func genTable(t *rapid.T) int {
	if chance(t, 4) {
		return pick(t, tableForms)
	}
	return 0
}

// fromTable names the table of the items explicitly in some way, and says how
// it is called
func fromTable(db, tx *gorm.DB, form int) (*gorm.DB, string) {
	switch form {
	case 1:
		return tx.Table("items"), "items"
	case 2:
		return tx.Table("main.items"), "items"
	case 3:
		return tx.Table("items AS it"), "it"
	case 4:
		return tx.Table("(?) as u", db.Model(&Item{})), "u"
	case 5:
		return tx.Table("items i"), "i"
	}
	return tx, "items"
}

// readItems gives the ids found
func readItems(db *gorm.DB, how int) (ids []int64, err error) {
	return readFrom(db, how, "items")
}

func readFrom(db *gorm.DB, how int, table string) (ids []int64, err error) {
	switch how {
	case 0:
		err = db.Pluck(table+".id", &ids).Error
	case 1:
		var s []Item
		err = db.Find(&s).Error
		for _, v := range s {
			ids = append(ids, v.ID)
		}
	case 2:
		rows, e := db.Rows()
		if e != nil {
			return nil, e
		}
		defer rows.Close()
		for rows.Next() {
			var v Item
			if err = db.ScanRows(rows, &v); err != nil {
				return
			}
			ids = append(ids, v.ID)
		}
		err = rows.Err()
	case 3:
		var s []struct{ ID int64 }
		err = db.Scan(&s).Error
		for _, v := range s {
			ids = append(ids, v.ID)
		}
	case 4:
		var s []Item
		err = db.FindInBatches(&s, 3, func(tx *gorm.DB, n int) error {
			for _, v := range s {
				ids = append(ids, v.ID)
			}
			return nil
		}).Error
	case 5:
		var s []map[string]any
		err = db.Select(table + ".id").Find(&s).Error
		for _, v := range s {
			switch x := v["id"].(type) {
			case int64:
				ids = append(ids, x)
			default:
				err = fmt.Errorf("id is %T", x)
			}
		}
	default:
		var s []*Item
		err = db.Order(table + ".id desc").Find(&s).Error
		for _, v := range s {
			ids = append(ids, v.ID)
		}
	}
	return
}

// ---- C11 ----

type caseC11 struct {
	Rows  [][]V   `json:"rows"`
	Q     []caseQ `json:"q"`
	Way   int     `json:"way"`
	Read  int     `json:"read"`
	Model int     `json:"model"`
	Mode  int     `json:"mode,omitempty"`
	Table int     `json:"table,omitempty"`
}

func genRowCount(t *rapid.T) int {
	if chance(t, 12) {
		return 12 + pick(t, 40)
	}
	return 1 + pick(t, 8)
}

func genC11(t *rapid.T) (c caseC11) {
	g := gormGen()
	g.mods = true
	n := 1 + pick(t, 4)
	for i := 0; i < n; i++ {
		c.Q = append(c.Q, writeQ(t, g.query(t)))
	}
	c.Rows = genRows(t, itemCols, genRowCount(t))
	echoQ(t, c.Rows, c.Q)
	c.Way, c.Read, c.Model = pick(t, applyWays), pick(t, readWays), pick(t, 3)
	c.Mode, c.Table = genMode(t), genTable(t)
	return
}

func evalC11(c caseC11, r *Rec) error {
	fill("items", colNames(itemCols), c.Rows)
	db, done := openMode(c.Mode)
	defer done()
	for _, q := range c.Q {
		want := matching(c.Rows, func(row []V) bool { return rowEnv(row, gormItemIndex).Holds(q.Tree) })
		r.NonTrivial(len(want) > 0 && len(want) < len(c.Rows))
		labelTree(r, q.Tree)
		var ids []int64
		var err error
		if crash := guard(func() {
			tx, name := fromTable(db, db.Model(itemModel(c.Model)), c.Table)
			ids, err = readFrom(applyGorm(tx, c.Way, q.Text), c.Read, name)
		}); crash != nil {
			return failf("%s crashed: %v", quoteShort(q.Text), crash)
		}
		if limited(r, err, q.Text) {
			continue
		}
		if err != nil {
			return failf("%s fails: %v; sent %q", quoteShort(q.Text), err, thePool.take())
		}
		if !sameIDs(ids, want) {
			return failf("%s selects the rows %v, want %v; sent %q", quoteShort(q.Text), sortedIDs(ids), want, thePool.take())
		}
	}
	return nil
}

// ---- C12 ----

type caseC12 struct {
	Q     caseQ  `json:"q"`
	Text  string `json:"text"` // the same with other literals
	Other *N     `json:"other"`
	PG    bool   `json:"pg"`
	Way   int    `json:"way"`
	Op    int    `json:"op"`
}

type relation struct {
	name string
	cols []column
}

var relations = []relation{{"Owner", ownerCols}, {"Detail", detailCols}, {"Parent", itemCols}, {"Boss", ownerCols}, {"Memo", memoCols}}

// relatedRef draws a column of a related table
func relatedRef(t *rapid.T, typ byte) *N { return refOf(t, typ, relations) }

// relatedRefs includes the relation that adds a value to the statement
func relatedRefs(t *rapid.T, typ byte) *N {
	return refOf(t, typ, append(relations[:len(relations):len(relations)], relation{"Image", imageCols}))
}

func refOf(t *rapid.T, typ byte, rels []relation) *N {
	r := oneOf(t, rels)
	var s []column
	for _, c := range r.cols {
		if c.Type == typ {
			s = append(s, c)
		}
	}
	if len(s) == 0 {
		return nil
	}
	return nRef(r.name, oneOf(t, oneOf(t, s).Gorm))
}

// markLits gives every literal a new value of the same type that is easy to find
func markLits(t *rapid.T, n *N) *N {
	k := 0
	return n.mapTree(func(n *N) *N {
		switch n.K {
		case "int":
			k++
			n.I = 710000000 + k*1000 + pick(t, 1000)
		case "str":
			k++
			n.S = fmt.Sprintf("zq%dx", k) + oneOf(t, []string{"", "'", `"`, "`", "--", ";", "?", "%", "\\", "$1", "@a", "\n", "é", ")"})
		case "bool":
			n.B = !n.B
		}
		return n
	})
}

// anyLits gives every literal another value of the same type
func anyLits(t *rapid.T, n *N) *N {
	return n.mapTree(func(n *N) *N {
		switch n.K {
		case "int":
			n.I = genInt(t)
		case "str":
			n.S = genStr(t)
		case "bool":
			n.B = pick(t, 2) == 1
		}
		return n
	})
}

func litsInOrder(n *N) (s []any) {
	n.walk(func(n *N) {
		switch n.K {
		case "int":
			s = append(s, n.I)
		case "str":
			s = append(s, n.S)
		case "bool":
			s = append(s, n.B)
		case "null":
			s = append(s, nil)
		}
	})
	return
}

// emptyIn says if n looks for something in an empty list. What is looked for need
// not be part of the SQL.
func emptyIn(n *N) bool {
	return n.K == "cmp" && (n.Op == "in" || n.Op == "not in") && len(n.A[1].A) == 0
}

func hasEmptyIn(n *N) (yes bool) {
	n.walk(func(n *N) { yes = yes || emptyIn(n) })
	return
}

// dropEmptyIn leaves out what is looked for in empty lists
func dropEmptyIn(n *N) *N {
	return n.mapTree(func(n *N) *N {
		if emptyIn(n) {
			return nID("x")
		}
		return n
	})
}

func genC12(t *rapid.T) (c caseC12) {
	g := gormGen()
	g.mods = true
	c.Op = pick(t, 4)
	if c.Op < 2 && pick(t, 3) == 2 {
		g.ref = relatedRef
	}
	n := g.query(t)
	c.Q = writeQ(t, markLits(t, n))
	c.Other = anyLits(t, n)
	c.Text = Write(t, c.Other, Style(pick(t, 3)))
	c.PG, c.Way = pick(t, 2) == 1, pick(t, applyWays)
	return
}

var sqlWords = map[string]bool{}

func init() {
	for _, w := range strings.Fields("SELECT FROM WHERE LEFT RIGHT INNER OUTER JOIN ON AND OR NOT IN LIKE BETWEEN IS NULL TRUE FALSE DATE AS COUNT UPDATE SET DELETE DISTINCT CASE WHEN THEN ELSE END EXISTS CAST ORDER BY LIMIT ISNULL NOTNULL") {
		sqlWords[w] = true
	}
}

// drySQL builds the statement without sending it
func drySQL(db *gorm.DB, way, op int, q string) (s string, vars []any, err error) {
	db = db.Session(&gorm.Session{DryRun: true, SkipHooks: true})
	tx := applyGorm(db.Model(&Item{}), way, q)
	switch op {
	case 0:
		var x []Item
		tx = tx.Find(&x)
	case 1:
		var n int64
		tx = tx.Count(&n)
	case 2:
		tx = tx.UpdateColumn("score", 424242)
	case 3:
		tx = tx.Delete(&Item{})
	}
	return tx.Statement.SQL.String(), tx.Statement.Vars, tx.Error
}

func checkTokens(sql string, vars []any, names map[string]bool, numbered, empty bool) error {
	params := 0
	for _, tok := range sqlTokens(sql) {
		switch tok.Kind {
		case "bad", "comment", "string", "number":
			if tok.Kind == "number" && (tok.Text == "1" || empty && tok.Text == "0") {
				continue // count(1), and 1 = 0 for an empty list
			}
			return failf("the SQL contains the %s %q: %s", tok.Kind, tok.Text, sql)
		case "word":
			if !sqlWords[strings.ToUpper(tok.Text)] {
				return failf("the SQL contains the word %q: %s", tok.Text, sql)
			}
		case "quoted":
			if !names[tok.Text] {
				return failf("the SQL contains the name %q: %s", tok.Text, sql)
			}
		case "param":
			params++
			if want := fmt.Sprintf("$%d", params); numbered && tok.Text != want {
				return failf("the SQL contains the parameter %s, want %s: %s", tok.Text, want, sql)
			}
		}
	}
	if params != len(vars) {
		return failf("the SQL has %d parameters for %d values: %s", params, len(vars), sql)
	}
	return nil
}

var gormNames = map[string]bool{}

func init() {
	for _, s := range []string{"items", "owners", "details", "Owner", "Detail", "Parent", "owner_id", "parent_id", "item_id", "deleted_at", "Boss", "boss_id", "Memo", "memos"} {
		gormNames[s] = true
	}
	all := func(cols []column, rel string) {
		for _, c := range cols {
			gormNames[c.Name] = true
			if rel != "" {
				gormNames[rel+"__"+c.Name] = true
			}
		}
	}
	all(itemCols, "")
	all(itemCols, "Parent")
	all(ownerCols, "Owner")
	all(detailCols, "Detail")
	all(ownerCols, "Boss")
	all(memoCols, "Memo")
	for _, s := range []string{"owner_id", "parent_id", "boss_id", "deleted_at"} {
		gormNames["Parent__"+s] = true
	}
	gormNames["Detail__item_id"], gormNames["Memo__item_id"], gormNames["Memo__deleted_at"] = true, true, true
}

func evalC12(c caseC12, r *Rec) error {
	lits := litsInOrder(c.Q.Tree)
	r.NonTrivial(len(lits) > 0)
	labelTree(r, c.Q.Tree)
	open := func() *gorm.DB {
		if c.PG {
			return openPG()
		}
		return openGorm(nil)
	}
	db := open()
	build := func(text string) (s string, vars []any, err error) {
		if crash := guard(func() { s, vars, err = drySQL(db, c.Way, c.Op, text) }); crash != nil {
			return "", nil, failf("%s crashed: %v", quoteShort(text), crash)
		}
		if err != nil {
			return "", nil, failf("%s fails: %v", quoteShort(text), err)
		}
		if c.Op == 2 { // SET score = ?
			if len(vars) == 0 || vars[0] != any(424242) {
				return "", nil, failf("%s: the first value is not the new one: %v", quoteShort(text), vars)
			}
		}
		return
	}
	sql, vars, err := build(c.Q.Text)
	if err != nil {
		return err
	}
	empty := hasEmptyIn(c.Q.Tree)
	if err := checkTokens(sql, vars, gormNames, c.PG, empty); err != nil {
		return failf("%s: %v", quoteShort(c.Q.Text), err)
	}
	got := vars
	if c.Op == 2 {
		got = vars[1:]
	}
	if empty && len(got) < len(lits) {
		lits = litsInOrder(dropEmptyIn(c.Q.Tree))
	}
	if !reflect.DeepEqual(append([]any{}, got...), append([]any{}, lits...)) {
		return failf("%s binds the values %#v, want %#v", quoteShort(c.Q.Text), got, lits)
	}
	for _, v := range lits {
		if s := fmt.Sprint(v); len(s) > 4 && strings.Contains(sql, s) && s != "false" {
			return failf("%s: the literal %q is part of the SQL %s", quoteShort(c.Q.Text), s, sql)
		}
	}
	sql2, vars2, err := build(c.Text)
	if err != nil {
		return err
	}
	if sql != sql2 {
		return failf("%s and %s differ in literals only, but give\n %s\n %s", quoteShort(c.Q.Text), quoteShort(c.Text), sql, sql2)
	}
	if c.Op == 2 {
		vars2 = vars2[1:]
	}
	if lits := litsInOrder(c.Other); !reflect.DeepEqual(append([]any{}, vars2...), append([]any{}, lits...)) {
		return failf("%s binds the values %#v, want %#v", quoteShort(c.Text), vars2, lits)
	}
	if len(thePoolSent()) > 0 {
		return failf("a dry run sent statements")
	}
	return nil
}

func thePoolSent() []string {
	if thePool == nil {
		return nil
	}
	return thePool.take()
}

// ---- C14 ----

type caseC14 struct {
	Mode  int    `json:"mode,omitempty"` // settings of the handle
	Rows  [][]V  `json:"rows"`
	Text  string `json:"text"`
	Why   string `json:"why"`
	Way   int    `json:"way"`
	Op    int    `json:"op"`
	Other bool   `json:"other"` // there are other conditions as well
	NoMod bool   `json:"noModel"`
	Extra string `json:"extra,omitempty"` // a valid filter applied as well
	First bool   `json:"first"`           // it comes first
	Nest  int    `json:"nest,omitempty"`  // where the filter is
}

const (
	gormOps   = 19
	nestKinds = 11
	nestSub   = 10
)

// nestGorm uses a filtered handle as a condition of another one
func nestGorm(fresh, tx, h *gorm.DB, kind, op int) *gorm.DB {
	switch kind {
	case 1:
		return tx.Where(h)
	case 2:
		return tx.Not(h)
	case 3:
		return tx.Where("age > ?", 0).Or(h)
	case 4:
		return tx.Where(fresh.Where("age > ?", 0).Or(h))
	case 5:
		return tx.Where(fresh.Where(h))
	case 6:
		return tx.Where("id > 0").Where(h)
	case 7:
		return tx.Where(fresh.Where(fresh.Not(h)).Where("id > 0")).Where("age > ?", 0)
	case 8:
		if op >= 8 && op <= 11 || op == 14 || op == 15 || op == 17 {
			// writing has no such clause
			return tx.Where("id > 0").Where(h)
		}
		return tx.Group("id").Having(h)
	case 9:
		return tx.Clauses(clause.And(errExprs(fresh, h)...))
	case nestSub:
		return tx.Where("id IN (?)", h.Select("id"))
	}
	panic("nest")
}

// errExprs are the conditions of a handle as gorm collects them
func errExprs(fresh, h *gorm.DB) []clause.Expression {
	return fresh.Session(&gorm.Session{NewDB: true}).Model(&Item{}).Scopes().Statement.BuildCondition(h)
}

// runOp runs any operation on a filtered handle
func runOp(db *gorm.DB, op int) (err error, touched bool) {
	var items []Item
	item := Item{}
	switch op {
	case 0:
		err = db.Find(&items).Error
	case 1:
		err = db.First(&item).Error
	case 2:
		err = db.Take(&item).Error
	case 3:
		err = db.Last(&item).Error
	case 4:
		n := int64(-7)
		err = db.Count(&n).Error
		touched = n != -7 && n != 0
	case 5:
		rows, e := db.Rows()
		if err = e; e == nil {
			rows.Close()
		}
	case 6:
		var ids []int64
		err = db.Pluck("id", &ids).Error
		touched = len(ids) > 0
	case 7:
		err = db.Scan(&items).Error
	case 8:
		err = db.Update("score", 77).Error
	case 9:
		err = db.Updates(map[string]any{"score": 77, "name": "x"}).Error
	case 10:
		err = db.UpdateColumn("score", 77).Error
	case 11:
		err = db.Delete(&Item{}).Error
	case 12:
		err = db.FindInBatches(&items, 2, func(*gorm.DB, int) error { touched = true; return nil }).Error
	case 13:
		err = db.FirstOrInit(&item).Error
	case 14:
		err = db.FirstOrCreate(&item).Error
	case 15:
		v := int64(77)
		err = db.Updates(&Item{Score: &v}).Error
	case 16:
		row := db.Row()
		if row == nil {
			err = db.Error
			if err == nil {
				err = fmt.Errorf("no row")
			}
		} else {
			var x any
			if err = row.Scan(&x); err != nil && strings.Contains(err.Error(), "destination arguments") {
				err = nil
			}
		}
	case 17:
		err = db.Unscoped().Delete(&Item{}).Error
	case 18:
		err = db.Preload("Owner").Find(&items).Error
	}
	return err, touched || len(items) > 0 || item.ID != 0
}

// genBadGorm draws a query that cannot be applied to Item
func genBadGorm(t *rapid.T) (text, why string) {
	g := gormGen()
	bad := func() (*N, string) {
		switch pick(t, 10) {
		case 8:
			return nRef(oneOf(t, []string{"Parts", "Labels"}), oneOf(t, []string{"name", "id", "Name", "ID"})), "relation to many rows"
		case 0:
			return nID(oneOf(t, []string{"missing", "nam", "names", "fullnames", "full__name", "itemcode", "ownername", "i", "a", "is_active", "deletedAtX", "Items", "rowid", "oid", "_rowid"}[:14])), "unknown name"
		case 1:
			return nID(oneOf(t, []string{"Owner", "Detail", "Parent", "owner", "detail", "PARENT", "Boss", "Image", "Parts", "labels"})), "a relation as a column"
		case 2:
			return nRef(oneOf(t, []string{"owner", "Ownerx", "items", "Items", "owners", "Name", "name", "DETAIL", "main", "sqlite_master"}), oneOf(t, []string{"name", "id", "Name"})), "unknown relation"
		case 3:
			return nRef(oneOf(t, []string{"Owner", "Detail", "Parent"}), oneOf(t, []string{"missing", "owner", "Owner", "item", "nam", "rowid", "full_names"})), "unknown related column"
		case 4:
			return nRef(oneOf(t, []string{"Parent", "Owner"}), oneOf(t, []string{"Owner", "Parent", "name"}), oneOf(t, []string{"name", "id"})), "too many levels"
		case 5:
			return nFn(oneOf(t, []string{"lower", "Date", "DATE", "dates", "count", "sleep", "load_extension", "has_edge", "d", "coalesce"}), g.col(t, 's')), "unknown function"
		case 6:
			return nFn(oneOf(t, []string{"now", "random", "upper"})), "unknown function"
		case 7:
			return nFn("date", nID("missing")), "unknown name"
		}
		s := genName(t)
		if _, ok := gormFold(s); ok {
			s += "_nope"
		}
		return nID(s), "unknown name"
	}
	if pick(t, 3) == 2 {
		for i := 0; i < 3; i++ {
			s := genMutant(t)
			if _, ok := refParse(s); !ok && strings.TrimSpace(s) != "" {
				return s, "bad syntax"
			}
		}
		return Write(t, g.query(t), Loose) + oneOf(t, []string{")", " and", " or", " =", " '", "(", " x", ",", " --", ";"}), "bad syntax"
	}
	b, why := bad()
	if chance(t, 6) {
		// any argument
		args := []*N{g.col(t, 's'), nStr("x"), g.col(t, 'i')}[:1+pick(t, 3)]
		args[pick(t, len(args))] = b
		b = nFn("date", args...)
	}
	if pick(t, 3) == 2 {
		return Write(t, Fix(replaceAny(t, g.query(t), b)), Style(pick(t, 3))), why
	}
	cond := b
	switch pick(t, 6) {
	case 0:
		cond = nCmp(b, cmpOps[pick(t, 6)], nInt(1))
	case 1:
		cond = nPred(b, oneOf(t, predOps))
	case 2:
		cond = nCmp(b, oneOf(t, []string{"in", "not in"}), nArr(nInt(1), nInt(2)))
	case 3:
		cond = nBetween(oneOf(t, []string{"between", "not between"}), b, nInt(1), nInt(2))
	case 4:
		cond = nCmp(nID("id"), cmpOps[pick(t, 8)], b)
	case 5:
		cond = nPred(nFn("date", b), "is null")
	}
	n := cond
	for i := pick(t, 4); i > 0; i-- {
		switch pick(t, 5) {
		case 0:
			n = nLogic(g.cond(t, 1), oneOf(t, []string{"or", "and"}), n)
		case 1:
			n = nLogic(n, oneOf(t, []string{"or", "and"}), g.cond(t, 1))
		case 2:
			n = nNot(n)
		case 3:
			n = nParen(n)
		case 4:
			n = nLogic(nBool(true), oneOf(t, []string{"or", "and"}), n)
		}
	}
	return Write(t, Fix(n), Style(pick(t, 3))), why
}

// gormFold says if a name means a column of Item
func gormFold(s string) (int, bool) {
	for i, c := range itemCols {
		for _, x := range c.Gorm {
			if strings.EqualFold(x, s) {
				return i, true
			}
		}
	}
	for _, x := range []string{"owner_id", "OwnerID", "parent_id", "ParentID", "boss_id", "BossID", "deleted_at", "DeletedAt"} {
		if strings.EqualFold(s, x) {
			return -1, true
		}
	}
	return -1, false
}

func genC14(t *rapid.T) (c caseC14) {
	c.Rows = genRows(t, itemCols, 1+pick(t, 4))
	c.Way, c.Op, c.Other, c.Mode = pick(t, applyWays), pick(t, gormOps), chance(t, 3), genMode(t)
	switch {
	case chance(t, 12):
		c.NoMod, c.Why = true, "no model"
		c.Text = Write(t, gormGen().query(t), Style(pick(t, 3)))
	case chance(t, 30):
		c.Why = "no condition"
		c.Text = genNothing(t)
		if strings.TrimSpace(c.Text) == "" && (c.Way == 1 || c.Way == 3) {
			// a list leaves out blank entries
			c.Way = []int{0, 2, 4}[pick(t, 3)]
		}
	default:
		c.Text, c.Why = genBadGorm(t)
	}
	if chance(t, 4) {
		c.Extra, c.First = Write(t, gormGen().query(t), Loose), pick(t, 2) == 1
	}
	if chance(t, 3) {
		c.Nest = 1 + pick(t, nestKinds-1)
	}
	return
}

func evalC14(c caseC14, r *Rec) error {
	fill("items", colNames(itemCols), c.Rows)
	before := dump("items")
	db, done := openMode(c.Mode)
	defer done()
	r.Label(c.Why)
	r.Label("settings %d", c.Mode)
	r.Label("operation %02d", c.Op)
	if c.Nest > 0 {
		r.Label("nested %d", c.Nest)
	}
	r.NonTrivial(true)
	thePool.take()
	var err error
	var touched bool
	if crash := guard(func() {
		tx := db.Model(&Item{})
		if c.NoMod {
			tx = db.Table("items")
		}
		if c.Other {
			tx = tx.Where("age > ?", 0)
		}
		if c.Extra != "" && c.First {
			tx = applyGorm(tx, 0, c.Extra)
		}
		if c.Nest == 0 {
			tx = applyGorm(tx, c.Way, c.Text)
		} else {
			h := applyGorm(tx, c.Way, c.Text)
			tx = nestGorm(db, db.Model(&Item{}), h, c.Nest, c.Op)
		}
		if c.Extra != "" && !c.First {
			tx = applyGorm(tx, c.Way, c.Extra)
		}
		err, touched = runOp(tx, c.Op)
	}); crash != nil {
		return failf("operation %d with %s (%s) crashed: %v", c.Op, quoteShort(c.Text), c.Why, crash)
	}
	sent := thePool.take()
	if c.Nest == nestSub && (err != nil || len(sent) > 0 && strings.Contains(sent[0], "IN ()")) {
		if err == nil {
			r.Known("gorm-invalid-subquery")
		}
		return nil
	}
	if err == nil {
		return failf("operation %d with %s (%s) reports no error; sent %q", c.Op, quoteShort(c.Text), c.Why, sent)
	}
	if len(sent) > 0 {
		return failf("operation %d with %s (%s) reports %v but sent %q", c.Op, quoteShort(c.Text), c.Why, err, sent)
	}
	if touched {
		return failf("operation %d with %s (%s) reports %v but gives a result", c.Op, quoteShort(c.Text), c.Why, err)
	}
	done()
	if !reflect.DeepEqual(before, dump("items")) {
		return failf("operation %d with %s (%s) changed the table", c.Op, quoteShort(c.Text), c.Why)
	}
	return nil
}

func init() {
	register(Prop{ID: "C11", Quick: 150000, Thor: 500000,
		Rule: "typed conditions over a table of random rows, applied and read in different ways; non-trivial: a query selects some but not all rows"}, genC11, evalC11)
	register(Prop{ID: "C12", Quick: 200000, Thor: 1000000,
		Rule: "typed conditions with marked literals, dry runs for two dialects, the same query with other literals; non-trivial: at least one literal"}, genC12, evalC12)
	register(Prop{ID: "C14", Quick: 160000, Thor: 800000,
		Rule: "queries made invalid by syntax, name, relation, function or a missing model, with every operation; every case is non-trivial"}, genC14, evalC14)
}
