package main

import (
	"context"
	"database/sql"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/glebarez/sqlite"
	"gorm.io/gorm"
	"gorm.io/gorm/callbacks"
	"gorm.io/gorm/clause"
	"gorm.io/gorm/logger"
	"gorm.io/gorm/migrator"
	"gorm.io/gorm/schema"
	"pgregory.net/rapid"
)

// models of the row checks

var ctxBackground = context.Background()

type Owner struct {
	ID       int64 `gorm:"primaryKey"`
	Name     *string
	Age      *int64
	Active   *bool
	JoinedAt *string
	Note     *string `gorm:"column:owner_note"`
}

type Detail struct {
	ID     int64 `gorm:"primaryKey"`
	ItemID *int64
	Name   *string
	Score  *int64
	Weight *int64 `gorm:"column:w"`
}

type Item struct {
	ID         int64 `gorm:"primaryKey"`
	Age        *int64
	Score      *int64
	Name       *string
	FullName   *string
	Active     *bool
	OpenFlag   *bool
	HappenedAt *string
	Code       *string `gorm:"column:item_code"`
	OwnerID    *int64
	Owner      *Owner
	ParentID   *int64
	Parent     *Item
	Detail     *Detail
	BossID     *int64
	Boss       *Owner
	Image      *Image `gorm:"polymorphic:Holder"`
	Memo       *Memo
	Parts      []Part
	Labels     []Label `gorm:"many2many:item_labels"`
	DeletedAt  *string // a plain column here
}

// Image belongs to rows of several tables.
type Image struct {
	ID         int64 `gorm:"primaryKey"`
	Name       *string
	Size       *int64
	HolderID   *int64
	HolderType *string
}

// Memo is soft deleted.
type Memo struct {
	ID        int64 `gorm:"primaryKey"`
	ItemID    *int64
	Name      *string
	Score     *int64
	DeletedAt gorm.DeletedAt
}

// Part and Label are related many times.
type Part struct {
	ID     int64 `gorm:"primaryKey"`
	ItemID *int64
	Name   *string
}

type Label struct {
	ID   int64 `gorm:"primaryKey"`
	Name *string
}

// Ticket is soft deleted.
type Ticket struct {
	ID         int64 `gorm:"primaryKey"`
	Age        *int64
	Score      *int64
	Name       *string
	FullName   *string
	Active     *bool
	OpenFlag   *bool
	HappenedAt *string
	Code       *string `gorm:"column:item_code"`
	DeletedAt  gorm.DeletedAt
}

var (
	ownerCols = []column{
		{"id", 'i', []string{"id", "ID"}, nil},
		{"name", 's', []string{"name", "Name", "NAME"}, nil},
		{"age", 'i', []string{"age", "Age", "AGE"}, nil},
		{"active", 'b', []string{"active", "Active"}, nil},
		{"joined_at", 't', []string{"joined_at", "JoinedAt", "joinedat"}, nil},
		{"owner_note", 's', []string{"owner_note", "Note", "note"}, nil},
	}
	detailCols = []column{
		{"id", 'i', []string{"id", "ID"}, nil},
		{"name", 's', []string{"name", "Name"}, nil},
		{"score", 'i', []string{"score", "Score", "SCORE"}, nil},
		{"w", 'i', []string{"w", "Weight", "weight"}, nil},
	}
	imageCols = []column{
		{"id", 'i', []string{"id", "ID"}, nil},
		{"name", 's', []string{"name", "Name"}, nil},
		{"size", 'i', []string{"size", "Size", "SIZE"}, nil},
	}
	memoCols = []column{
		{"id", 'i', []string{"id", "ID"}, nil},
		{"name", 's', []string{"name", "Name"}, nil},
		{"score", 'i', []string{"score", "Score"}, nil},
	}
)

const tablesDDL = `
CREATE TABLE items (id integer primary key, age integer, score integer, name text, full_name text, active boolean, open_flag boolean, happened_at text, item_code text, owner_id integer, parent_id integer, next_id integer, main_tag integer, boss_id integer, deleted_at text);
CREATE TABLE tickets (id integer primary key, age integer, score integer, name text, full_name text, active boolean, open_flag boolean, happened_at text, item_code text, deleted_at datetime);
CREATE TABLE owners (id integer primary key, name text, age integer, active boolean, joined_at text, owner_note text);
CREATE TABLE tags (tag_no integer primary key, name text, score integer, active boolean, happened_at text, kind_no integer);
CREATE TABLE tag_likes (id integer primary key, name text, score integer, from_no integer, to_no integer);
CREATE TABLE item_tags (id integer primary key, name text, score integer, item_id integer, tag_id integer);
CREATE TABLE item_friends (id integer primary key, age integer, name text, item_id integer, friend_id integer);
CREATE TABLE details (id integer primary key, item_id integer, name text, score integer, w integer, active boolean, joined_at text);
CREATE TABLE images (id integer primary key, name text, size integer, holder_id integer, holder_type text);
CREATE TABLE memos (id integer primary key, name text, score integer, item_id integer, deleted_at datetime);
CREATE TABLE parts (id integer primary key, item_id integer, name text);
CREATE TABLE labels (id integer primary key, name text);
CREATE TABLE item_labels (id integer primary key, name text, item_id integer, label_id integer);
`

// pool passes statements to SQLite and records them
type pool struct {
	*sql.DB
	mu   sync.Mutex
	sent []string
}

func (p *pool) record(s string) {
	p.mu.Lock()
	p.sent = append(p.sent, s)
	p.mu.Unlock()
}

func (p *pool) take() []string {
	p.mu.Lock()
	defer p.mu.Unlock()
	s := p.sent
	p.sent = nil
	return s
}

func (p *pool) PrepareContext(ctx context.Context, q string) (*sql.Stmt, error) {
	p.record(q)
	return p.DB.PrepareContext(ctx, q)
}
func (p *pool) ExecContext(ctx context.Context, q string, a ...any) (sql.Result, error) {
	p.record(q)
	return p.DB.ExecContext(ctx, q, a...)
}
func (p *pool) QueryContext(ctx context.Context, q string, a ...any) (*sql.Rows, error) {
	p.record(q)
	return p.DB.QueryContext(ctx, q, a...)
}
func (p *pool) QueryRowContext(ctx context.Context, q string, a ...any) *sql.Row {
	p.record(q)
	return p.DB.QueryRowContext(ctx, q, a...)
}
func (p *pool) BeginTx(ctx context.Context, opts *sql.TxOptions) (gorm.ConnPool, error) {
	tx, err := p.DB.BeginTx(ctx, opts)
	if err != nil {
		return nil, err
	}
	return &poolTx{tx, p}, nil
}

type poolTx struct {
	*sql.Tx
	p *pool
}

func (p *poolTx) PrepareContext(ctx context.Context, q string) (*sql.Stmt, error) {
	p.p.record(q)
	return p.Tx.PrepareContext(ctx, q)
}
func (p *poolTx) ExecContext(ctx context.Context, q string, a ...any) (sql.Result, error) {
	p.p.record(q)
	return p.Tx.ExecContext(ctx, q, a...)
}
func (p *poolTx) QueryContext(ctx context.Context, q string, a ...any) (*sql.Rows, error) {
	p.p.record(q)
	return p.Tx.QueryContext(ctx, q, a...)
}
func (p *poolTx) QueryRowContext(ctx context.Context, q string, a ...any) *sql.Row {
	p.p.record(q)
	return p.Tx.QueryRowContext(ctx, q, a...)
}

var (
	theDB   *sql.DB
	thePool *pool
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// sqlDB is one in-memory database for the process
func sqlDB() *sql.DB {
	if theDB == nil {
		db, err := sql.Open("sqlite", ":memory:")
		must(err)
		db.SetMaxOpenConns(1)
		_, err = db.Exec(tablesDDL)
		must(err)
		theDB = db
		thePool = &pool{DB: db}
	}
	return theDB
}

// openGorm gives a handle of its own for every case
func openGorm(cfg *gorm.Config) *gorm.DB {
	sqlDB()
	if cfg == nil {
		cfg = &gorm.Config{}
	}
	cfg.Logger = logger.Discard
	db, err := gorm.Open(&sqlite.Dialector{Conn: thePool}, cfg)
	must(err)
	thePool.take()
	return db
}

const gormModes = 8

// openMode gives a handle with other settings, or in a transaction; done ends it.
// The tables have to be filled before.
func openMode(mode int) (db *gorm.DB, done func()) {
	done = func() {}
	switch mode {
	case 1:
		return openGorm(&gorm.Config{QueryFields: true}), done
	case 2:
		return openGorm(&gorm.Config{SkipDefaultTransaction: true, AllowGlobalUpdate: true, TranslateError: true}), done
	case 3:
		tx := openGorm(nil).Begin()
		must(tx.Error)
		return tx, sync.OnceFunc(func() { tx.Commit() })
	case 4:
		return openGorm(nil).Session(&gorm.Session{}), done
	case 5:
		return openGorm(nil).WithContext(context.WithValue(ctxBackground, &gormModes0, 1)), done
	case 6:
		return openGorm(nil).Debug(), done
	case 7:
		return openGorm(nil).Session(&gorm.Session{QueryFields: true, SkipHooks: true}), done
	}
	return openGorm(nil), done
}

var gormModes0 int

// genMode draws the settings of a handle
func genMode(t *rapid.T) int {
	if chance(t, 3) {
		return pick(t, gormModes)
	}
	return 0
}

// pgDialector has the quoting and placeholders of PostgreSQL, for dry runs
type pgDialector struct{}

func (pgDialector) Name() string { return "postgres" }
func (pgDialector) Initialize(db *gorm.DB) error {
	callbacks.RegisterDefaultCallbacks(db, &callbacks.Config{})
	return nil
}
func (d pgDialector) Migrator(db *gorm.DB) gorm.Migrator {
	return migrator.Migrator{Config: migrator.Config{DB: db, Dialector: d}}
}
func (pgDialector) DataTypeOf(*schema.Field) string { return "text" }
func (pgDialector) DefaultValueOf(*schema.Field) clause.Expression {
	return clause.Expr{SQL: "DEFAULT"}
}
func (pgDialector) BindVarTo(w clause.Writer, stmt *gorm.Statement, v any) {
	_ = w.WriteByte('$')
	_, _ = w.WriteString(strconv.Itoa(len(stmt.Vars)))
}
func (pgDialector) QuoteTo(w clause.Writer, s string) {
	for i, p := range strings.Split(s, ".") {
		if i > 0 {
			_ = w.WriteByte('.')
		}
		_, _ = w.WriteString(`"` + strings.ReplaceAll(p, `"`, `""`) + `"`)
	}
}
func (pgDialector) Explain(s string, vars ...any) string { return s }

func openPG() *gorm.DB {
	db, err := gorm.Open(pgDialector{}, &gorm.Config{Logger: logger.Discard, DryRun: true, SkipDefaultTransaction: true, DisableAutomaticPing: true})
	must(err)
	return db
}

// fill replaces the content of a table
func fill(table string, cols []string, rows [][]V) {
	db := sqlDB()
	_, err := db.Exec("DELETE FROM " + table)
	must(err)
	const batch = 50
	for len(rows) > 0 {
		n := min(batch, len(rows))
		var sb strings.Builder
		var args []any
		fmt.Fprintf(&sb, "INSERT INTO %s (%s) VALUES ", table, strings.Join(cols, ","))
		for i, r := range rows[:n] {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString("(?" + strings.Repeat(",?", len(cols)-1) + ")")
			for _, v := range r {
				args = append(args, v.Go())
			}
		}
		_, err := db.Exec(sb.String(), args...)
		must(err)
		rows = rows[n:]
	}
}

func colNames(cols []column) (s []string) {
	for _, c := range cols {
		s = append(s, c.Name)
	}
	return
}

// dump reads a table back, for comparing it byte for byte
func dump(table string) map[int64]string {
	rows, err := sqlDB().Query("SELECT * FROM " + table)
	must(err)
	defer rows.Close()
	cols, err := rows.Columns()
	must(err)
	out := map[int64]string{}
	for rows.Next() {
		vals := make([]any, len(cols))
		ptrs := make([]any, len(cols))
		for i := range vals {
			ptrs[i] = &vals[i]
		}
		must(rows.Scan(ptrs...))
		out[vals[0].(int64)] = fmt.Sprintf("%#v", vals[1:])
	}
	must(rows.Err())
	return out
}

func sortedIDs(s []int64) []int64 {
	s = append([]int64{}, s...)
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	return s
}

func sameIDs(a, b []int64) bool {
	a, b = sortedIDs(a), sortedIDs(b)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// queryIDs runs plain SQL
func queryIDs(q string, args ...any) (ids []int64, err error) {
	rows, err := sqlDB().Query(q, args...)
	if err != nil {
		return nil, err
	}
	defer rows.Close()
	for rows.Next() {
		var id int64
		if err := rows.Scan(&id); err != nil {
			return nil, err
		}
		ids = append(ids, id)
	}
	return ids, rows.Err()
}
