package main

import (
	"database/sql"
	"encoding/json"
	"errors"
	"fmt"
	"maps"
	"reflect"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/wenerme/go-miniquery/gormq"
	"gorm.io/gorm"
	"gorm.io/gorm/clause"
	"gorm.io/gorm/schema"
	"pgregory.net/rapid"
)

// ---- C13 ----

type fieldC13 struct {
	Name string `json:"name"`
	Col  string `json:"col,omitempty"` // explicit column
	Kind string `json:"kind"`          // col, ignored, rel, embedded, readonly
	Type int    `json:"type,omitempty"`
	Tag  string `json:"tag,omitempty"` // more settings
}

// types of fields, for the names they are all the same
var typesC13 = []reflect.Type{reflect.TypeOf((*int64)(nil)), reflect.TypeOf(int64(0)), reflect.TypeOf(""), reflect.TypeOf((*string)(nil)), reflect.TypeOf(false), reflect.TypeOf(1.5),
	reflect.TypeOf(time.Time{}), reflect.TypeOf((*time.Time)(nil)), reflect.TypeOf([]byte{}), reflect.TypeOf(sql.NullInt64{}), reflect.TypeOf(sql.NullString{}), reflect.TypeOf(uint8(0)), reflect.TypeOf(json.RawMessage{})}

var tagsC13 = []string{"not null", "unique", "index", "default:1", "comment:x", "-:migration", "<-:false", "<-:create", "autoIncrement:false", "size:10", "type:text", "check:x,y > 1"}

type caseC13 struct {
	Fields []fieldC13 `json:"fields"`
	Names  []string   `json:"names"` // asked for, dotted ones included
	Forms  []int      `json:"forms,omitempty"`
	Mode   int        `json:"mode,omitempty"` // naming strategy: 1 keeps field names, 2 has a prefix
}

type RelC13 struct {
	ID     int64  `gorm:"primaryKey;column:id"`
	Value  *int64 `gorm:"column:v_x"`
	Alpha  *int64 `gorm:"column:beta"`
	Beta   *int64 `gorm:"column:alpha"`
	Skip   *int64 `gorm:"-"`
	Deep   *DeepC13
	DeepID *int64 `gorm:"column:deep_id"`
	Odd    *int64 `gorm:"column:a?b"`
}

func (RelC13) TableName() string { return "rel13" }

type DeepC13 struct {
	ID int64 `gorm:"primaryKey"`
	Z  *int64
}

// namerC13 gives columns a prefix
type namerC13 struct{ schema.NamingStrategy }

func (namerC13) ColumnName(_, column string) string { return "c_" + strings.ToLower(column) }

var relColsC13 = []fieldC13{{Name: "ID", Col: "id"}, {Name: "Value", Col: "v_x"}, {Name: "Alpha", Col: "beta"}, {Name: "Beta", Col: "alpha"}, {Name: "Skip", Kind: "ignored"}, {Name: "Deep", Kind: "ignored"}, {Name: "DeepID", Col: "deep_id"}, {Name: "Odd", Col: "a?b"}}

// default column names
var defaultCols = map[string]string{"Alpha": "alpha", "Beta": "beta", "FullName": "full_name", "ID": "id", "Name": "name", "UserID": "user_id", "Bb": "bb", "X1": "x1", "Order": "order", "RelID": "rel_id"}

var fieldNames = []string{"Alpha", "Beta", "ALPHA", "BETA", "AlphA", "FullName", "Fullname", "FULLNAME", "ID", "Id", "Name", "NAME", "NaMe", "UserID", "UserId", "Bb", "BB", "X1", "Order", "A_b", "Created_At", "AB"}
var explicitCols = []string{"alpha", "beta", "c1", "full_name", "fullname", "name", "id", "x1", "user_id", "Name2", "MixedCase", "from", "select", "a-b", "with space", "order", "group", "FullName", "ünï", "bb", "ab", "a_b", "Alpha", "Order2", "where", "Bb", "ID", "a?b", "x@y", "q`q", "it's", "??"}

func (f fieldC13) column(mode int) string {
	if f.Col != "" || f.Kind == "ignored" || f.Kind == "rel" {
		return f.Col
	}
	switch mode {
	case 1:
		return f.Name
	case 2:
		return "c_" + strings.ToLower(f.Name)
	}
	return defaultCols[f.Name]
}

func genC13(t *rapid.T) (c caseC13) {
	c.Mode = max(0, pick(t, 8)-5)
	n := 2 + pick(t, 7)
	usedName, usedCol := map[string]bool{"ZZ": true, "Rel": true, "RelID": true}, map[string]bool{"rel_id": true, "relid": true, "true": true, "false": true} // SQLite takes a column true for the word
	for i := 0; i < n; i++ {
		f := fieldC13{Name: oneOf(t, fieldNames), Kind: oneOf(t, []string{"col", "col", "col", "col", "ignored", "readonly", "embedded"})}
		if chance(t, 4) {
			if s := genName(t); len(s) < 30 {
				f.Name = strings.ToUpper(s[:1]) + s[1:]
			}
		}
		if usedName[f.Name] || strings.HasPrefix(f.Name, "Emb") {
			continue
		}
		if f.Kind != "ignored" {
			if _, ok := defaultCols[f.Name]; !ok && c.Mode == 0 || pick(t, 2) == 1 || f.Kind == "embedded" {
				f.Col = oneOf(t, explicitCols)
				if s := genName(t); chance(t, 4) && len(s) < 30 {
					f.Col = s
				}
			}
			col := strings.ToLower(f.column(c.Mode))
			if usedCol[col] {
				continue
			}
			usedCol[col] = true
		}
		if chance(t, 2) {
			f.Type = pick(t, len(typesC13))
		}
		if f.Kind == "col" && chance(t, 4) {
			f.Tag = oneOf(t, tagsC13)
		}
		usedName[f.Name] = true
		c.Fields = append(c.Fields, f)
	}
	if pick(t, 2) == 1 {
		p := pick(t, len(c.Fields)+1)
		fk := fieldC13{Name: "RelID", Col: "rel_id", Kind: "col"}
		rel := fieldC13{Name: "Rel", Kind: "rel"}
		c.Fields = append(c.Fields[:p:p], append([]fieldC13{rel, fk}, c.Fields[p:]...)...)
	}
	var pool []string
	for _, f := range c.Fields {
		pool = append(pool, f.Name, f.column(c.Mode))
	}
	name := func() string {
		s := "missing"
		switch pick(t, 6) {
		case 0, 1, 2:
			if len(pool) > 0 {
				s = oneOf(t, pool)
			}
		case 3:
			s = oneOf(t, fieldNames)
		case 4:
			s = oneOf(t, explicitCols)
		case 5:
			s = genName(t)
		}
		switch pick(t, 6) {
		case 1:
			s = strings.ToLower(s)
		case 2:
			s = strings.ToUpper(s)
		case 3:
			s = strings.ReplaceAll(s, "_", "")
		case 4:
			s = oneOf(t, []string{s + "s", s + "_", "x" + s, s + "1"})
		}
		if !identRe(s) || isReserved(s) {
			s = "nope"
		}
		return s
	}
	for i := 2 + pick(t, 6); i > 0; i-- {
		s := name()
		if chance(t, 4) {
			s = oneOf(t, []string{"Rel", "Rel", "Rel", "rel", "REL", "Deep", name()}) + "." + oneOf(t, []string{"v_x", "Value", "VALUE", "alpha", "Alpha", "ALPHA", "beta", "Beta", "bETA", "id", "ID", "Skip", "skip", "Deep", "deep", "DeepID", "deep_id", "nope", "val", "Rel", "Odd", "odd", "Odd"})
			if chance(t, 8) {
				s += "." + oneOf(t, []string{"Z", "z", "id"})
			}
		}
		c.Names = append(c.Names, s)
		c.Forms = append(c.Forms, max(0, pick(t, 2*formsC13)-formsC13))
	}
	return
}

const formsC13 = 13

// formC13 is a condition that is true if name is v
func formC13(form int, name string, v int) string {
	switch form {
	case 1:
		return fmt.Sprintf("%s in [%d]", name, v)
	case 2:
		return fmt.Sprintf("%s between %d and %d", name, v, v)
	case 3:
		return fmt.Sprintf("%s > %d and %s < %d", name, v-1, name, v+1)
	case 4:
		return fmt.Sprintf("not %s <> %d", name, v)
	case 5:
		return fmt.Sprintf("%d = %s", v, name)
	case 6:
		return fmt.Sprintf("(%s) = %d", name, v)
	case 7:
		return fmt.Sprintf("not (%s not between %d and %d)", name, v, v)
	case 8:
		return fmt.Sprintf("%s is not null and %s = %d", name, name, v)
	case 9:
		return fmt.Sprintf("not (%s is null or %s != %d)", name, name, v)
	case 10:
		return fmt.Sprintf("%s like '%d'", name, v)
	case 11:
		return fmt.Sprintf("%s not in (0, 7) and %s = %d", name, name, v)
	case 12:
		return fmt.Sprintf("(%s = %d) is true", name, v)
	}
	return fmt.Sprintf("%s = %d", name, v)
}

// resolveC13 is the naming rule. ok is false for no column; skip if the rule leaves it open.
func resolveC13(fields []fieldC13, name string, mode int) (col string, ok, skip bool) {
	for _, f := range fields {
		if f.column(mode) == name {
			return name, true, false
		}
	}
	exact := false
	for _, f := range fields {
		if f.Name == name {
			if col := f.column(mode); col != "" {
				return col, true, false
			}
			exact = true
		}
	}
	for _, f := range fields {
		if strings.EqualFold(f.Name, name) && f.column(mode) != "" {
			return f.column(mode), true, exact
		}
	}
	return "", false, false
}

func modelC13(c caseC13) reflect.Type {
	var sf []reflect.StructField
	for _, f := range c.Fields {
		ft := typesC13[f.Type]
		s := reflect.StructField{Name: f.Name, Type: ft}
		col := ""
		if f.Col != "" {
			col = "column:" + f.Col
		}
		switch f.Kind {
		case "ignored":
			s.Tag = `gorm:"-"`
		case "rel":
			s.Type = reflect.TypeOf((*RelC13)(nil))
		case "readonly":
			s.Tag = reflect.StructTag(`gorm:"->;` + col + `"`)
		case "embedded":
			in := reflect.StructField{Name: f.Name, Type: ft}
			prefix := ""
			if p := strings.Index(f.Col, "_"); p > 0 && p < len(f.Col)-1 {
				prefix = ";embeddedPrefix:" + f.Col[:p+1]
				in.Tag = reflect.StructTag(`gorm:"column:` + f.Col[p+1:] + `"`)
			} else {
				in.Tag = reflect.StructTag(`gorm:"` + col + `"`)
			}
			s = reflect.StructField{Name: "Emb" + f.Name, Type: reflect.StructOf([]reflect.StructField{in}), Tag: reflect.StructTag(`gorm:"embedded` + prefix + `"`)}
		default:
			s.Tag = reflect.StructTag(`gorm:"` + col + `"`)
			if f.Tag != "" {
				s.Tag = reflect.StructTag(`gorm:"` + f.Tag + `;` + col + `"`)
			}
		}
		sf = append(sf, s)
	}
	return reflect.StructOf(sf)
}

func evalC13(c caseC13, r *Rec) error {
	cfg := &gorm.Config{}
	switch c.Mode {
	case 1:
		cfg.NamingStrategy = schema.NamingStrategy{NoLowerCase: true}
	case 2:
		cfg.NamingStrategy = namerC13{}
	}
	db := openGorm(cfg)
	// one row, every column has a value of its own
	var cols []string
	vals := map[string]int{}
	hasRel := false
	for _, f := range c.Fields {
		if f.Kind == "rel" {
			hasRel = true
		}
		if col := f.column(c.Mode); col != "" {
			vals[col] = 1000 + len(vals)
			cols = append(cols, col)
		}
	}
	if len(cols) == 0 {
		return nil
	}
	q := func(s string) string { return `"` + strings.ReplaceAll(s, `"`, `""`) + `"` }
	exec := func(s string, a ...any) {
		_, err := sqlDB().Exec(s, a...)
		must(err)
	}
	relTable, relCols := RelC13{}.TableName(), map[string]int{"id": 1, "v_x": 2001, "beta": 2002, "alpha": 2003, "deep_id": 2004, "a?b": 2005}
	exec("DROP TABLE IF EXISTS t13")
	exec("DROP TABLE IF EXISTS " + relTable)
	var defs []string
	var args []any
	for _, col := range cols {
		defs = append(defs, q(col)+" integer")
		v := vals[col]
		if col == "rel_id" {
			v = 1
			vals[col] = 1
		}
		args = append(args, v)
	}
	exec("CREATE TABLE t13 (" + strings.Join(defs, ",") + ")")
	exec("INSERT INTO t13 VALUES (?"+strings.Repeat(",?", len(args)-1)+")", args...)
	exec("CREATE TABLE " + relTable + " (id integer, v_x integer, beta integer, alpha integer, deep_id integer, \"a?b\" integer)")
	exec("INSERT INTO " + relTable + " VALUES (1, 2001, 2002, 2003, 2004, 2005)")

	typ := modelC13(c)
	good := ""
	for k, name := range c.Names {
		var want int
		var ok, skip bool
		var col string
		if names := strings.Split(name, "."); len(names) == 1 {
			col, ok, skip = resolveC13(c.Fields, name, c.Mode)
			want = vals[col]
		} else {
			ok = len(names) == 2 && hasRel && names[0] == "Rel"
			if ok {
				col, ok, skip = resolveC13(relColsC13, names[1], 0)
				want = relCols[col]
				col = "Rel." + col
			}
			r.Label("dotted")
		}
		if skip {
			continue
		}
		form := 0
		if k < len(c.Forms) {
			form = c.Forms[k]
		}
		r.Label("form %d", form)
		text := formC13(form, name, want)
		single := text
		if good != "" {
			// together with the one before
			text += " and " + good
		}
		var n int64
		var err error
		if crash := guard(func() {
			err = applyGorm(db.Table("t13").Model(reflect.New(typ).Interface()), 0, text).Count(&n).Error
		}); crash != nil {
			return failf("%s on %v crashed: %v", text, typ, crash)
		}
		if !ok {
			r.Label("not a name")
			r.NonTrivial(true)
			if err == nil {
				return failf("%q is no column of %v but is accepted; sent %q", name, typ, thePool.take())
			}
			continue
		}
		r.Label("a name")
		r.NonTrivial(true)
		if err != nil {
			return failf("%q means column %q of %v but fails: %v; sent %q", name, col, typ, err, thePool.take())
		}
		if n != 1 {
			return failf("%q means column %q of %v but in %q another one was compared; sent %q", name, col, typ, text, thePool.take())
		}
		good = single
		thePool.take()
	}
	return nil
}

// ---- C15 ----

type stepC15 struct {
	Q    *caseQ `json:"q,omitempty"` // a filter
	Way  int    `json:"way,omitempty"`
	How  int    `json:"how,omitempty"`  // how the filter is used, see filterStep
	Cond int    `json:"cond,omitempty"` // or a condition of the application
	Val  int    `json:"val,omitempty"`
}

const filterHows = 7

// filterStep adds a filter: by itself, as a group of its own, in a sub query or
// as an alternative. or is set if it is an alternative to what was there before.
func filterStep(fresh, db *gorm.DB, s stepC15) (tx *gorm.DB, n *N, or bool) {
	n = s.Q.Tree
	own := func() *gorm.DB { return applyGorm(fresh.Model(&Ticket{}), s.Way, s.Q.Text) }
	v := nCmp(nID("id"), "eq", nInt(s.Val))
	switch s.How {
	case 1:
		return db.Where(own()), n, false
	case 2:
		return db.Where(own().Or("id = ?", s.Val)), nLogic(nParen(n), "or", v), false
	case 3:
		return db.Where("id IN (?)", own().Select("id")), nLogic(nParen(n), "and", nPred(nID("deleted_at"), "is null")), false
	case 4:
		return db.Where(own().Where("id = ?", s.Val)), nLogic(nParen(n), "and", v), false
	case 5:
		return db.Or(own()), n, true
	case 6:
		return db.Not("id IN (?)", own().Select("id")), nPred(nLogic(nParen(n), "and", nPred(nID("deleted_at"), "is null")), "is not true"), false
	}
	return applyGorm(db, s.Way, s.Q.Text), n, false
}

type caseC15 struct {
	Mode    int       `json:"mode,omitempty"` // settings of the handle
	Rows    [][]V     `json:"rows"`
	Deleted []bool    `json:"deleted"`
	Steps   []stepC15 `json:"steps"`
	End     int       `json:"end"`
	Val     int       `json:"val"`
	Order   int       `json:"order"`
	Limit   int       `json:"limit"`
	Early   bool      `json:"early,omitempty"` // what is not a condition comes first
}

const (
	endsC15   = 16
	endOffset = 12
	endGroup  = 13
	endHaving = 14
	endUnique = 15
)

const (
	appConds = 13
	condOr   = 11 // an alternative
	condOne  = 12 // all rows but one
)

// appCond applies a condition of the application and says what it means
func appCond(fresh, db *gorm.DB, k, v int) (*gorm.DB, *N) {
	n := nInt(v)
	switch k {
	case 0:
		return db.Where("age > ?", v), nCmp(nID("age"), "gt", n)
	case 1:
		return db.Where("score <= ? OR name = ?", v, "a"), nLogic(nCmp(nID("score"), "lte", n), "or", nCmp(nID("name"), "eq", nStr("a")))
	case 2:
		return db.Where(map[string]any{"active": true}), nCmp(nID("active"), "eq", nBool(true))
	case 3:
		s := "a"
		return db.Where(&Ticket{Name: &s}), nCmp(nID("name"), "eq", nStr("a"))
	case 4:
		return db.Not("name = ?", "b"), nNot(nCmp(nID("name"), "eq", nStr("b")))
	case 5:
		return db.Where("id IN ?", []int{1, 2, v}), nCmp(nID("id"), "in", nArr(nInt(1), nInt(2), n))
	case 6:
		return db.Where(fresh.Where("age < ?", v).Or("active = ?", true)), nParen(nLogic(nCmp(nID("age"), "lt", n), "or", nCmp(nID("active"), "eq", nBool(true))))
	case 7:
		return db.Where("id > ?", v), nCmp(nID("id"), "gt", n)
	case 8:
		return db.Where("name IS NOT NULL"), nPred(nID("name"), "is not null")
	case 9:
		return db.Where("id = ?", v), nCmp(nID("id"), "eq", n)
	case condOne:
		return db.Where("id <> ?", v), nCmp(nID("id"), "neq", n)
	case condOr:
		return db.Or("score = ?", v), nCmp(nID("score"), "eq", n)
	}
	return db.Where([]int64{1, 3, int64(v)}), nCmp(nID("id"), "in", nArr(nInt(1), nInt(3), n))
}

func genC15(t *rapid.T) (c caseC15) {
	c.Mode = genMode(t)
	c.Rows = genRows(t, itemCols, 5+pick(t, 9))
	for range c.Rows {
		c.Deleted = append(c.Deleted, chance(t, 5))
	}
	g := gormGen()
	filter := func() stepC15 {
		n := g.query(t)
		if chance(t, 5) {
			// deleted rows stay hidden
			x := nPred(nID(oneOf(t, []string{"deleted_at", "DeletedAt"})), oneOf(t, []string{"is null", "is not null"}))
			n = Fix(nLogic(nParen(n), oneOf(t, []string{"or", "and"}), x))
		}
		q := writeQ(t, n)
		s := stepC15{Q: &q, Way: pick(t, applyWays)}
		if chance(t, 3) {
			s.How, s.Val = pick(t, filterHows), pick(t, 8)
			if s.How == 2 && s.Way < 2 {
				s.Way += 2 // scopes come last, after the alternative
			}
		}
		return s
	}
	c.Steps = append(c.Steps, filter())
	if chance(t, 8) {
		// many weak ones
		for i := 3 + pick(t, 14); i > 0; i-- {
			c.Steps = append(c.Steps, stepC15{Cond: condOne, Val: 1 + pick(t, 14)})
		}
	}
	for i := pick(t, 4); i > 0; i-- {
		s := stepC15{Cond: pick(t, appConds), Val: pick(t, 8)}
		if chance(t, 3) {
			s = filter()
		}
		p := pick(t, len(c.Steps)+1)
		c.Steps = append(c.Steps[:p:p], append([]stepC15{s}, c.Steps[p:]...)...)
	}
	for _, s := range c.Steps {
		if s.Q != nil {
			echo(t, c.Rows, itemCols, s.Q.Tree)
		}
	}
	// nothing to be an alternative to
	if s := &c.Steps[0]; s.Q != nil && s.How == 5 || s.Q == nil && s.Cond == condOr {
		s.How, s.Cond = 0, 0
	}
	c.End, c.Val, c.Early = pick(t, endsC15), pick(t, 8), pick(t, 2) == 1
	c.Order = pick(t, 3)
	if chance(t, 4) {
		c.Limit = 1 + pick(t, 4)
	}
	for _, s := range c.Steps {
		if s.Q != nil && s.How == 5 || s.Q == nil && s.Cond == condOr {
			// the order of the conditions matters, scopes come last
			for i := range c.Steps {
				if s := &c.Steps[i]; s.Way < 2 {
					s.Way += 2
				}
			}
			c.Limit = 0
			if c.End == 7 || c.End == 9 || c.End == 10 || c.End >= endOffset {
				c.End = 0
			}
		}
	}
	return
}

func anyOf(s []*N) *N {
	n := s[0]
	for _, x := range s[1:] {
		n = nLogic(n, "or", x)
	}
	return n
}

var ticketIndex = func() map[string]int {
	m := maps.Clone(gormItemIndex)
	m["deleted_at"], m["DeletedAt"] = len(itemCols), len(itemCols)
	return m
}()

func evalC15(c caseC15, r *Rec) error {
	rows := make([][]V, len(c.Rows))
	for i, row := range c.Rows {
		d := V{}
		if c.Deleted[i] {
			d = vStr("2024-01-01 00:00:00")
		}
		rows[i] = append(append([]V{}, row...), d)
	}
	fill("tickets", append(colNames(itemCols), "deleted_at"), rows)
	db, done := openMode(c.Mode)
	defer done()
	thePool.take()

	// alternatives of the application bind as gorm writes them, or a filter
	// narrows all that comes before it
	var flat, unit []*N
	add := func(n *N, or, filter bool) {
		and := func(s []*N) []*N {
			k := len(s) - 1
			return append(s[:k:k], nLogic(s[k], "and", n))
		}
		switch {
		case len(flat) == 0 || or:
			flat, unit = append(flat, n), append(unit, n)
		case filter:
			flat = and(flat)
			unit = []*N{nLogic(anyOf(unit), "and", n)}
		default:
			flat, unit = and(flat), and(unit)
		}
	}
	alt := false
	unscoped := c.End == 8
	var ids []int64
	var err error
	count := int64(-1)
	one := false
	limit := 0
	var texts []sql.NullString
	if crash := guard(func() {
		tx := db.Model(&Ticket{})
		around := func() {
			if c.End < 3 {
				switch c.Order {
				case 1:
					tx = tx.Order("id")
				case 2:
					tx = tx.Order("id desc")
				}
				if c.Limit > 0 && c.Order > 0 {
					tx, limit = tx.Limit(c.Limit), c.Limit
				}
			}
			switch c.End {
			case endOffset:
				tx = tx.Order("id").Limit(50).Offset(c.Val)
			case endGroup:
				tx = tx.Select("name || '/' || count(*)").Group("name")
			case endHaving:
				tx = tx.Select("name || '/' || count(*)").Group("name").Having("count(*) > ?", 1)
			case endUnique:
				tx = tx.Distinct("name || '/'")
			}
		}
		if c.Early {
			around()
		}
		for _, s := range c.Steps {
			var n *N
			or := false
			if s.Q != nil {
				tx, n, or = filterStep(db, tx, s)
				r.Label("filter used in way %d", s.How)
			} else {
				tx, n = appCond(db, tx, s.Cond, s.Val)
				or = s.Cond == condOr
			}
			alt = alt || or
			add(n, or, s.Q != nil)
		}
		var out []Ticket
		v := nInt(c.Val)
		if !c.Early {
			around()
		}
		switch c.End {
		case 0, 1, 2, endOffset:
			err = tx.Find(&out).Error
		case 3:
			err = tx.Find(&out, "score < ?", c.Val).Error
			add(nCmp(nID("score"), "lt", v), false, false)
		case 4:
			err = tx.Find(&out, []int{1, 2, c.Val}).Error
			add(nCmp(nID("id"), "in", nArr(nInt(1), nInt(2), v)), false, false)
		case 5:
			err = tx.Pluck("id", &ids).Error
		case 6:
			err = tx.Count(&count).Error
		case 7:
			var x Ticket
			one = true
			err = tx.First(&x, c.Val+1).Error
			add(nCmp(nID("id"), "eq", nInt(c.Val+1)), false, false)
			ids = append(ids, x.ID)
		case 8:
			err = tx.Unscoped().Find(&out).Error
		case 9:
			x := Ticket{ID: int64(c.Val + 1)}
			one = true
			err = tx.Take(&x).Error
			add(nCmp(nID("id"), "eq", nInt(c.Val+1)), false, false)
			ids = append(ids, x.ID)
		case 10:
			var x Ticket
			one = true
			err = tx.First(&x).Error
			ids = append(ids, x.ID)
		case 11:
			s := "a"
			err = tx.Find(&out, &Ticket{Name: &s}).Error
			add(nCmp(nID("name"), "eq", nStr("a")), false, false)
		case endGroup, endHaving, endUnique:
			err = tx.Scan(&texts).Error
		}
		for _, x := range out {
			ids = append(ids, x.ID)
		}
	}); crash != nil {
		return failf("%s crashed: %v", stepsText(c), crash)
	}
	meant := func(cond *N) []int64 {
		i := -1
		return matching(rows, func(row []V) bool {
			i++
			return (unscoped || !c.Deleted[i]) && rowEnv(row, ticketIndex).Holds(cond)
		})
	}
	want := meant(anyOf(flat))
	if alt {
		r.Label("with alternatives")
		if w := meant(anyOf(unit)); !sameIDs(w, want) {
			r.Label("two readings of alternatives")
			if count == int64(len(w)) || count < 0 && sameIDs(ids, w) {
				want = w
			}
		}
	}
	r.Label("end %d", c.End)
	r.NonTrivial(len(want) > 0 && len(want) < len(c.Rows))
	sent := thePool.take()
	if limited(r, err, stepsText(c)) {
		return nil
	}
	if one && len(want) == 0 {
		if !errors.Is(err, gorm.ErrRecordNotFound) {
			return failf("%s gives %v, %v, want no record; sent %q", stepsText(c), ids, err, sent)
		}
		return nil
	}
	if err != nil {
		return failf("%s fails: %v; sent %q", stepsText(c), err, sent)
	}
	switch {
	case count >= 0:
		if count != int64(len(want)) {
			return failf("%s counts %d, want %d; sent %q", stepsText(c), count, len(want), sent)
		}
		return nil
	case one:
		want = want[:1]
	case c.End == endOffset:
		want = want[min(c.Val, len(want)):]
		if !slices.Equal(ids, want) {
			return failf("%s gives %v, want %v; sent %q", stepsText(c), ids, want, sent)
		}
		return nil
	case c.End > endOffset:
		groups := map[string]int{}
		null := 0
		for _, id := range want {
			if v := rows[id-1][colIndex(itemCols, "name")]; v.S == nil {
				null++
			} else {
				groups[*v.S]++
			}
		}
		var got, exp []string
		for _, s := range texts {
			got = append(got, s.String)
		}
		for s, n := range groups {
			switch {
			case c.End == endUnique:
				exp = append(exp, s+"/")
			case c.End == endGroup || n > 1:
				exp = append(exp, fmt.Sprintf("%s/%d", s, n))
			}
		}
		if null > 0 && (c.End != endHaving || null > 1) {
			exp = append(exp, "")
		}
		sort.Strings(got)
		sort.Strings(exp)
		if !slices.Equal(got, exp) {
			return failf("%s gives %q, want %q; sent %q", stepsText(c), got, exp, sent)
		}
		return nil
	}
	if c.End < 3 && c.Order == 2 {
		sort.Slice(want, func(i, j int) bool { return want[i] > want[j] })
	}
	if limit > 0 && len(want) > limit {
		want = want[:limit]
	}
	if !sameIDs(ids, want) || c.End < 3 && c.Order > 0 && len(want) > 0 && !reflect.DeepEqual(ids, want) {
		return failf("%s gives %v, want %v; sent %q", stepsText(c), ids, want, sent)
	}
	return nil
}

func stepsText(c caseC15) string {
	var s []string
	for _, x := range c.Steps {
		if x.Q != nil {
			s = append(s, fmt.Sprintf("filter %s (use %d, %d)", quoteShort(x.Q.Text), x.How, x.Val))
		} else {
			s = append(s, fmt.Sprintf("condition %d(%d)", x.Cond, x.Val))
		}
	}
	return fmt.Sprintf("%s, end %d(%d)", strings.Join(s, ", "), c.End, c.Val)
}

// ---- C16 ----

type caseC16 struct {
	Mode    int      `json:"mode,omitempty"` // settings of the handle
	Rows    [][]V    `json:"rows"`
	Entries []entry  `json:"entries"`
	Bad     []string `json:"bad,omitempty"` // texts of entries that are no queries
	Op      int      `json:"op"`
	Direct  bool     `json:"direct"`
}

var splits = [][]string{
	{"id = 1) or (id = 1"}, {"1=1) or (1=1"}, {"true) or (true"}, {"(id = 1", "id = 2)"}, {"name = 'x", "y'"}, {"name = \"x", "y\""}, {"id = 1 --"}, {"id = 1 //", "id = 2"},
	{"id in (1", "2)"}, {") or (1=1"}, {"1=1) or ("}, {"id = 1 or", "id = 2"}, {"id between 1", "3"}, {"not", "id = 1"}, {"id ="}, {"date(name", "name) = 'x'"}, {"id = 1) --\n or (id=2"},
	{"(", ")"}, {"id = 1", "or id = 2"}, {"id = [1", "2]"}, {"1=1)or(1=1"}, {"id=1)||(id=2"}, {"id = 1)", "(id = 2"}, {"--"}, {"-- x\n"},
}

func genC16(t *rapid.T) (c caseC16) {
	c.Mode = genMode(t)
	c.Rows = genRows(t, itemCols, 2+pick(t, 8))
	g := gormGen()
	n := pick(t, 5)
	if chance(t, 20) {
		n = 11 + pick(t, 60)
	}
	for i := 0; i < n; i++ {
		if chance(t, 4) {
			c.Entries = append(c.Entries, entry{Text: oneOf(t, blanks)})
			continue
		}
		q := writeQ(t, g.query(t))
		if n > 10 {
			// most of them exclude no row
			q = writeQ(t, oneOf(t, []*N{nPred(nID("id"), "is not null"), nCmp(nID("id"), "gt", nInt(0)),
				nLogic(nPred(nID("age"), "is null"), "or", nPred(nID("age"), "is not null"))}))
			if i == n-1 || chance(t, 20) {
				q = writeQ(t, Fix(g.cond(t, 0)))
			}
		}
		c.Entries = append(c.Entries, entry{q.Tree, q.Text})
		if chance(t, 4) {
			// almost the same again
			n := nearTree(t, q.Tree)
			c.Entries = append(c.Entries, entry{n, Write(t, n, Plain)})
		}
		echo(t, c.Rows, itemCols, q.Tree)
	}
	if pick(t, 2) == 1 {
		c.Bad = append([]string{}, oneOf(t, splits)...)
		if chance(t, 4) {
			// two halves of a query
			s := Write(t, g.query(t), Loose)
			p := pick(t, len(s)+1)
			c.Bad = []string{strings.ToValidUTF8(s[:p], ""), strings.ToValidUTF8(s[p:], "")}
		}
		// the first bad entry goes anywhere, the others after it
		p := pick(t, len(c.Entries)+1)
		for _, b := range c.Bad {
			c.Entries = append(c.Entries[:p:p], append([]entry{{Text: b}}, c.Entries[p:]...)...)
			p = p + 1 + pick(t, len(c.Entries)-p)
		}
	}
	c.Op, c.Direct = pick(t, gormOps), pick(t, 2) == 1
	return
}

func evalC16(c caseC16, r *Rec) error {
	fill("items", colNames(itemCols), c.Rows)
	before := dump("items")
	db, done := openMode(c.Mode)
	defer done()
	var list []string
	var trees []*N
	bad, open := false, false
	for _, e := range c.Entries {
		list = append(list, e.Text)
		if strings.TrimSpace(e.Text) == "" {
			continue
		}
		if e.Tree == nil {
			// part of a query, it may be a query by itself
			n, ok := refParse(e.Text)
			if !ok {
				bad = true
				continue
			}
			open = open || !plainC16(n)
			e.Tree = n
		}
		trees = append(trees, e.Tree)
	}
	if open && !bad {
		return nil
	}
	saved := append([]string(nil), list...)
	thePool.take()
	tx := db.Model(&Item{})
	scope := gormq.MiniQuery{Query: list}
	apply := func() *gorm.DB {
		if c.Direct {
			return scope.Scope(tx)
		}
		return tx.Scopes(scope.Scope)
	}
	if len(list) == 0 && !bad {
		// the empty text by itself
		r.Label("nothing")
		inner := apply
		apply = func() *gorm.DB {
			if c.Op%3 == 0 {
				return inner()
			}
			return applyGorm(tx, c.Op%applyWays, "")
		}
	}
	if bad {
		r.Label("with a bad entry")
		r.NonTrivial(len(list) > 1)
		var err error
		var touched bool
		if crash := guard(func() { err, touched = runOp(apply(), c.Op) }); crash != nil {
			return failf("operation %d with %q crashed: %v", c.Op, list, crash)
		}
		sent := thePool.take()
		if err == nil || len(sent) > 0 || touched {
			return failf("operation %d with %q, error %v, sent %q", c.Op, list, err, sent)
		}
		done()
		if !reflect.DeepEqual(before, dump("items")) {
			return failf("operation %d with %q changed the table", c.Op, list)
		}
		return nil
	}
	want := matching(c.Rows, func(row []V) bool {
		for _, n := range trees {
			if !rowEnv(row, gormItemIndex).Holds(n) {
				return false
			}
		}
		return true
	})
	r.Label("%d entries, %d blank", min(len(list), 6), min(len(list)-len(trees), 6))
	r.NonTrivial(len(trees) > 1)
	var ids []int64
	var err error
	if crash := guard(func() { ids, err = readItems(apply(), c.Op%readWays) }); crash != nil {
		return failf("%q crashed: %v", list, crash)
	}
	if limited(r, err, list...) {
		return nil
	}
	if err != nil {
		return failf("%q fails: %v; sent %q", list, err, thePool.take())
	}
	if !sameIDs(ids, want) {
		return failf("%q selects %v, want %v; sent %q", list, sortedIDs(ids), want, thePool.take())
	}
	if !reflect.DeepEqual(saved, list) && len(list) > 0 {
		return failf("%q was changed to %q", saved, list)
	}
	return nil
}

// plainC16 says if an accidental query is one the evaluator can decide
func plainC16(n *N) bool {
	return n.K == "cmp" && n.A[0].K == "id" && n.A[0].S == "id" && n.A[1].K == "int" && (n.Op == "eq")
}

// ---- C17 ----

type caseC17 struct {
	Mode    int    `json:"mode,omitempty"` // settings of the handle
	Rows    [][]V  `json:"rows"`
	Deleted []bool `json:"deleted"`
	Q       caseQ  `json:"q"`
	Way     int    `json:"way"`
	Op      int    `json:"op"`
	Soft    bool   `json:"soft"`
	Extra   bool   `json:"extra"`         // and id > 2
	Key     int    `json:"key,omitempty"` // the id of the model of a write
}

const opsC17 = 26

// writesC17 says if an operation writes
func writesC17(op int) bool { return op < 8 || op == 15 || op > 18 }

func genC17(t *rapid.T) (c caseC17) {
	c.Mode = genMode(t)
	c.Rows = genRows(t, itemCols, 1+pick(t, 10))
	for range c.Rows {
		c.Deleted = append(c.Deleted, chance(t, 4))
	}
	g := gormGen()
	c.Way, c.Op, c.Soft, c.Extra = pick(t, applyWays), pick(t, opsC17), pick(t, 2) == 1, chance(t, 3)
	if !c.Soft && (writesC17(c.Op) && chance(t, 8) || !writesC17(c.Op) && c.Op != 10 && c.Op != 11 && c.Op != 14 && chance(t, 3)) {
		g.ref = relatedRef
	}
	c.Q = writeQ(t, g.query(t))
	echo(t, c.Rows, itemCols, c.Q.Tree)
	if writesC17(c.Op) && c.Op < 22 && chance(t, 4) {
		c.Key = 1 + pick(t, len(c.Rows)+1)
	}
	return
}

func evalC17(c caseC17, r *Rec) error {
	cols := append(colNames(itemCols), "deleted_at")
	rows := make([][]V, len(c.Rows))
	for i, row := range c.Rows {
		d := V{}
		if c.Deleted[i] && c.Soft {
			d = vStr("2024-01-01 00:00:00")
		}
		rows[i] = append(append([]V{}, row...), d)
	}
	table := "items"
	var model func() any = func() any { return &Item{} }
	if c.Soft {
		table = "tickets"
		model = func() any { return &Ticket{} }
	}
	fill(table, cols, rows)
	before := dump(table)
	db, done := openMode(c.Mode)
	defer done()
	related := c.Q.Tree.has(func(n *N) bool { return n.K == "ref" })
	i := -1
	want := matching(c.Rows, func(row []V) bool {
		i++
		if c.Soft && c.Deleted[i] && c.Op != 7 {
			return false
		}
		if c.Extra && i+1 <= 2 || c.Key > 0 && i+1 != c.Key {
			return false
		}
		env := rowEnv(row, gormItemIndex)
		env.Ref = func([]string) V { return V{} } // there are no related rows
		return env.Holds(c.Q.Tree)
	})
	r.NonTrivial(len(want) > 0 && len(want) < len(c.Rows))
	r.Label("operation %d", c.Op)
	if c.Key > 0 {
		r.Label("model with a key")
	}
	thePool.take()

	var res *gorm.DB
	set := map[string]V{} // columns that change
	deleted := false
	reads := int64(-1)
	var ids []int64
	var plucked []string
	var back []int64             // rows that are returned by a write
	exprs := map[string]string{} // columns that become another column
	if crash := guard(func() {
		tx := db.Model(model())
		if c.Key > 0 && c.Soft {
			tx = db.Model(&Ticket{ID: int64(c.Key)})
		} else if c.Key > 0 {
			tx = db.Model(&Item{ID: int64(c.Key)})
		}
		if c.Extra {
			tx = tx.Where(table + ".id > 2")
		}
		switch c.Op {
		case 19:
			tx = tx.Omit("name")
		case 20:
			tx = tx.Select("score", "Active")
		}
		tx = applyGorm(tx, c.Way, c.Q.Text)
		switch c.Op {
		case 0:
			res = tx.Update("score", 4242)
			set["score"] = vInt(4242)
		case 1:
			res = tx.Updates(map[string]any{"name": "new", "age": nil})
			set["name"], set["age"] = vStr("new"), V{}
		case 2:
			res = tx.UpdateColumn("active", false)
			set["active"] = vInt(0)
		case 3:
			s := "new'"
			if c.Soft {
				res = tx.Updates(&Ticket{FullName: &s})
			} else {
				res = tx.Updates(&Item{FullName: &s})
			}
			set["full_name"] = vStr(s)
		case 4:
			res = tx.UpdateColumns(map[string]any{"item_code": "c", "happened_at": "2020-01-01"})
			set["item_code"], set["happened_at"] = vStr("c"), vStr("2020-01-01")
		case 5, 6:
			res = tx.Delete(model())
			deleted = true
		case 7:
			res = tx.Unscoped().Delete(model())
			deleted = true
		case 8:
			res = tx.Count(&reads)
		case 9:
			res = tx.Pluck(table+".id", &ids)
		case 10:
			var n int64
			res = tx.Select("count(*)").Scan(&n)
			reads = n
		case 11:
			var found []bool
			res = tx.Select("1").Limit(1).Scan(&found)
			reads = int64(len(found))
			if len(want) > 1 {
				want = want[:1]
			}
		case 12:
			var s []sql.NullInt64
			res = tx.Pluck(table+".age", &s)
			for _, v := range s {
				x, _ := v.Value()
				plucked = append(plucked, fmt.Sprint(x))
			}
		case 13:
			var s []sql.NullString
			res = tx.Pluck(table+".name", &s)
			for _, v := range s {
				x, _ := v.Value()
				plucked = append(plucked, fmt.Sprint(x))
			}
		case 14:
			var some bool
			res = tx.Select("count(*) > 0").Scan(&some)
			if reads = 0; some {
				reads = 1
			}
			if len(want) > 1 {
				want = want[:1]
			}
		case 15:
			res = tx.Update("age", gorm.Expr("score"))
			exprs["age"] = "score"
		case 19:
			res = tx.Updates(map[string]any{"name": "new", "age": 4})
			set["age"] = vInt(4)
		case 20:
			res = tx.Updates(map[string]any{"name": "new", "score": 4, "active": true, "age": 4})
			set["score"], set["active"] = vInt(4), vInt(1)
		case 21:
			res = tx.Select("name").Updates(map[string]any{"name": "new", "age": 4})
			set["name"] = vStr("new")
		case 22, 23:
			// the rows come back
			tx = tx.Clauses(clause.Returning{})
			var items []Item
			var tickets []Ticket
			var list any = &items
			if c.Soft {
				list = &tickets
			}
			if c.Op == 22 {
				res = tx.Delete(list)
				deleted = true
			} else {
				res = tx.Model(list).Update("score", 4242)
				set["score"] = vInt(4242)
			}
			back = []int64{}
			for _, v := range items {
				back = append(back, v.ID)
			}
			for _, v := range tickets {
				back = append(back, v.ID)
			}
		case 24, 25:
			// as a sub query
			tx = db.Model(model()).Where("id IN (?)", tx.Select(table+".id"))
			if c.Op == 24 {
				res = tx.Update("score", 4242)
				set["score"] = vInt(4242)
			} else {
				res = tx.Delete(model())
				deleted = true
			}
		case 16, 17, 18:
			m := model()
			switch c.Op {
			case 16:
				res = tx.First(m)
			case 17:
				res = tx.Last(m)
			default:
				res = tx.Take(m)
			}
			one := int64(0)
			switch v := m.(type) {
			case *Item:
				one = v.ID
			case *Ticket:
				one = v.ID
			}
			switch {
			case len(want) == 0:
				if errors.Is(res.Error, gorm.ErrRecordNotFound) {
					reads, res.Error = 0, nil
				}
			case res.Error == nil && (one == want[0] && c.Op == 16 || one == want[len(want)-1] && c.Op == 17 || c.Op == 18 && slices.Contains(want, one)):
				reads = int64(len(want))
			}
		}
	}); crash != nil {
		return failf("operation %d with %s crashed: %v", c.Op, quoteShort(c.Q.Text), crash)
	}
	sent := thePool.take()
	done()
	after := dump(table)
	if related && res.Error != nil && writesC17(c.Op) {
		r.Label("writing with related columns is refused")
		if !reflect.DeepEqual(before, after) {
			return failf("operation %d with %s fails with %v but changed the table; sent %q", c.Op, quoteShort(c.Q.Text), res.Error, sent)
		}
		return nil
	}
	if limited(r, res.Error, c.Q.Text) {
		return nil
	}
	if res.Error != nil {
		return failf("operation %d with %s fails: %v; sent %q", c.Op, quoteShort(c.Q.Text), res.Error, sent)
	}
	if !writesC17(c.Op) {
		if c.Op == 12 || c.Op == 13 {
			col := map[int]int{12: colIndex(itemCols, "age"), 13: colIndex(itemCols, "name")}[c.Op]
			var exp []string
			for _, id := range want {
				exp = append(exp, fmt.Sprint(c.Rows[id-1][col].Go()))
			}
			sort.Strings(exp)
			sort.Strings(plucked)
			if !slices.Equal(exp, plucked) {
				return failf("plucking with %s gives %q, want %q; sent %q", quoteShort(c.Q.Text), plucked, exp, sent)
			}
			reads = int64(len(plucked))
		}
		if c.Op == 9 {
			reads = int64(len(ids))
			if !sameIDs(ids, want) {
				return failf("%s gives %v, want %v; sent %q", quoteShort(c.Q.Text), ids, want, sent)
			}
		}
		if reads != int64(len(want)) {
			return failf("operation %d with %s gives %d, want %d; sent %q", c.Op, quoteShort(c.Q.Text), reads, len(want), sent)
		}
	} else if res.RowsAffected != int64(len(want)) {
		return failf("operation %d with %s reports %d rows, want %d; sent %q", c.Op, quoteShort(c.Q.Text), res.RowsAffected, len(want), sent)
	}
	if back != nil && !sameIDs(back, want) {
		return failf("operation %d with %s returns the rows %v, want %v; sent %q", c.Op, quoteShort(c.Q.Text), back, want, sent)
	}
	hit := map[int64]bool{}
	if writesC17(c.Op) {
		for _, id := range want {
			hit[id] = true
		}
	}
	soft := c.Soft && deleted && c.Op != 7
	if !deleted {
		// what the table has to be
		var exp [][]V
		for _, row := range rows {
			row = append([]V{}, row...)
			if hit[*row[0].I] {
				for k, v := range exprs {
					row[colIndex(itemCols, k)] = row[colIndex(itemCols, v)]
				}
				for k, v := range set {
					for j, name := range cols {
						if name == k {
							row[j] = v
						}
					}
				}
			}
			exp = append(exp, row)
		}
		fill(table, cols, exp)
		if e := dump(table); !reflect.DeepEqual(e, after) {
			return failf("operation %d with %s leaves\n %v\nwant\n %v\nsent %q", c.Op, quoteShort(c.Q.Text), after, e, sent)
		}
		return nil
	}
	for id, b := range before {
		a, ok := after[id]
		switch {
		case hit[id] && soft:
			if !ok || a == b {
				return failf("%s should mark row %d as deleted; sent %q", quoteShort(c.Q.Text), id, sent)
			}
		case hit[id]:
			if ok {
				return failf("%s should delete row %d; sent %q", quoteShort(c.Q.Text), id, sent)
			}
		case !ok || a != b:
			return failf("%s should leave row %d alone; sent %q", quoteShort(c.Q.Text), id, sent)
		}
	}
	return nil
}

func init() {
	register(Prop{ID: "C13", Quick: 160000, Thor: 600000,
		Rule: "random models with renamed, ignored, embedded, read-only and related fields, asked for random names; non-trivial: at least one name is decided"}, genC13, evalC13)
	register(Prop{ID: "C15", Quick: 160000, Thor: 700000,
		Rule: "filters combined with conditions of the application, soft deletion, primary keys, order and limit; non-trivial: some but not all rows are left"}, genC15, evalC15)
	register(Prop{ID: "C16", Quick: 160000, Thor: 700000,
		Rule: "lists of queries, blanks and texts that are queries only together; non-trivial: 2 queries or more, or a bad entry among others"}, genC16, evalC16)
	register(Prop{ID: "C17", Quick: 160000, Thor: 700000,
		Rule: "updates, deletes and counts through a filter on tables of random rows; non-trivial: some but not all rows are hit"}, genC17, evalC17)
}
