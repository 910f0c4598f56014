package main

import (
	"database/sql"
	"errors"
	"fmt"
	"reflect"
	"slices"
	"sort"
	"sync"

	"github.com/wenerme/go-miniquery/gormq"
	"gorm.io/gorm"
	"pgregory.net/rapid"
)

// ---- C18 ----

type relData struct {
	Items   [][]V   `json:"items"`
	OwnerID []int64 `json:"owner"`  // 0: none
	Parent  []int64 `json:"parent"` // 0: none
	Owners  [][]V   `json:"owners"`
	Details [][]V   `json:"details"`
	ItemID  []int64 `json:"item"` // of a detail, 0: none
	BossID  []int64 `json:"boss"`
	Images  [][]V   `json:"images"`
	Holder  []int64 `json:"holder"` // of an image, negative: a row of another table
	Memos   [][]V   `json:"memos"`
	MemoOf  []int64 `json:"memoOf"` // negative: a deleted one
}

type caseC18 struct {
	Mode  int `json:"mode,omitempty"` // settings of the handle
	Table int `json:"table,omitempty"`
	relData
	Q     []caseQ `json:"q"` // all apply
	List  bool    `json:"list"`
	Way   int     `json:"way"`
	Read  int     `json:"read"`
	Model int     `json:"model"`
	Where int     `json:"where"` // 1 before, 2 after
	Plain int     `json:"plain"` // the application joins as well
	Many  bool    `json:"many"`  // a relation to many rows is used
}

func genRelData(t *rapid.T) (d relData) {
	d.Items = genRows(t, itemCols, 3+pick(t, 8))
	d.Owners = genRows(t, ownerCols, 1+pick(t, 4))
	d.Details = genRows(t, detailCols, 1+pick(t, 6))
	used := map[int64]bool{}
	for range d.Details {
		id := int64(pick(t, len(d.Items)+2)) // none, an item, or a missing one
		if used[id] {
			id = 0 // at most one per item
		}
		used[id] = true
		d.ItemID = append(d.ItemID, id)
	}
	for range d.Items {
		d.OwnerID = append(d.OwnerID, int64((1+pick(t, len(d.Owners)+2))%(len(d.Owners)+2)))
		d.Parent = append(d.Parent, int64((1+pick(t, len(d.Items)+2))%(len(d.Items)+2)))
		d.BossID = append(d.BossID, int64(pick(t, len(d.Owners)+2)))
	}
	holders := func(n int) (s []int64) {
		used := map[int64]bool{}
		for i := 0; i < n; i++ {
			id := int64(pick(t, len(d.Items)+2))
			if used[id] || chance(t, 4) {
				id = -id
			}
			used[id] = true
			s = append(s, id)
		}
		return
	}
	d.Images = genRows(t, imageCols, pick(t, 5))
	d.Holder = holders(len(d.Images))
	d.Memos = genRows(t, memoCols, pick(t, 5))
	d.MemoOf = holders(len(d.Memos))
	return
}

func withIDs(rows [][]V, ids ...[]int64) (out [][]V) {
	for i, r := range rows {
		r = append([]V{}, r...)
		for _, s := range ids {
			v := V{}
			if s[i] != 0 {
				v = vInt(s[i])
			}
			r = append(r, v)
		}
		out = append(out, r)
	}
	return
}

func (d relData) fill() {
	fill("items", append(colNames(itemCols), "owner_id", "parent_id", "boss_id"), withIDs(d.Items, d.OwnerID, d.Parent, d.BossID))
	signed := func(rows [][]V, ids []int64, neg, pos V) (out [][]V) {
		for i, r := range rows {
			id, v := ids[i], pos
			if id < 0 {
				id, v = -id, neg
			}
			out = append(out, append(append([]V{}, r...), vInt(id), v))
		}
		return
	}
	fill("images", append(colNames(imageCols), "holder_id", "holder_type"), signed(d.Images, d.Holder, vStr("owners"), vStr("items")))
	fill("memos", append(colNames(memoCols), "item_id", "deleted_at"), signed(d.Memos, d.MemoOf, vStr("2024-01-01 00:00:00"), V{}))
	fill("owners", colNames(ownerCols), d.Owners)
	fill("details", append(colNames(detailCols), "item_id"), withIDs(d.Details, d.ItemID))
}

var (
	ownerIndex  = gormIndex(ownerCols)
	detailIndex = gormIndex(detailCols)
	imageIndex  = gormIndex(imageCols)
	memoIndex   = gormIndex(memoCols)
)

// env resolves the names of one item
func (d relData) env(i int) *Env {
	env := rowEnv(d.Items[i], gormItemIndex)
	env.Ref = func(names []string) V {
		switch names[0] {
		case "Owner":
			if id := d.OwnerID[i]; id > 0 && int(id) <= len(d.Owners) {
				return d.Owners[id-1][ownerIndex[names[1]]]
			}
		case "Boss":
			if id := d.BossID[i]; id > 0 && int(id) <= len(d.Owners) {
				return d.Owners[id-1][ownerIndex[names[1]]]
			}
		case "Image":
			if k := slices.Index(d.Holder, int64(i+1)); k >= 0 {
				return d.Images[k][imageIndex[names[1]]]
			}
		case "Memo":
			if k := slices.Index(d.MemoOf, int64(i+1)); k >= 0 {
				return d.Memos[k][memoIndex[names[1]]]
			}
		case "Parent":
			if id := d.Parent[i]; id > 0 && int(id) <= len(d.Items) {
				return d.Items[id-1][gormItemIndex[names[1]]]
			}
		case "Detail":
			for k, id := range d.ItemID {
				if id == int64(i+1) {
					return d.Details[k][detailIndex[names[1]]]
				}
			}
		default:
			panic("relation " + names[0])
		}
		return V{}
	}
	return env
}

func genC18(t *rapid.T) (c caseC18) {
	c.Mode, c.Table = genMode(t), genTable(t)
	c.relData = genRelData(t)
	g := gormGen()
	g.ref = relatedRefs
	for i := oneOf(t, []int{1, 1, 1, 2, 3}); i > 0; i-- {
		c.Q = append(c.Q, writeQ(t, g.query(t)))
	}
	if chance(t, 20) {
		c.Many = true
		q := &c.Q[pick(t, len(c.Q))]
		n := nCmp(nRef(oneOf(t, []string{"Parts", "Labels"}), oneOf(t, []string{"name", "id", "Name"})), cmpOps[pick(t, 6)], g.lit(t, 's'))
		if pick(t, 2) == 1 {
			n = nLogic(q.Tree, oneOf(t, []string{"and", "or"}), n)
		}
		*q = writeQ(t, Fix(n))
	}
	echoQ(t, c.Items, c.Q)
	c.List, c.Way, c.Read, c.Model = pick(t, 2) == 1, pick(t, applyWays), pick(t, readWays+2), pick(t, 3)
	c.Where = oneOf(t, []int{0, 0, 1, 2})
	if chance(t, 3) {
		c.Plain = pick(t, 8)
	}
	return
}

func evalC18(c caseC18, r *Rec) error {
	c.fill()
	db, done := openMode(c.Mode)
	defer done()
	var want []int64
	for i := range c.Items {
		ok := c.Where == 0 || i+1 > 2
		if c.Many {
			break
		}
		if id := c.OwnerID[i]; c.Plain == 5 && (id == 0 || int(id) > len(c.Owners)) {
			ok = false
		}
		for _, q := range c.Q {
			ok = ok && c.env(i).Holds(q.Tree)
		}
		if ok {
			want = append(want, int64(i+1))
		}
	}
	refs := 0
	var list []string
	for _, q := range c.Q {
		list = append(list, q.Text)
		q.Tree.walk(func(n *N) {
			if n.K == "ref" {
				refs++
				r.Label(n.Names[0])
			}
		})
	}
	r.Label("joined by the application: %d", c.Plain)
	r.NonTrivial((refs > 0 || c.Plain > 0) && len(want) > 0 && len(want) < len(c.Items))
	thePool.take()
	var ids []int64
	var err error
	if crash := guard(func() {
		tx, name := fromTable(db, db.Model(itemModel(c.Model)), c.Table)
		if c.Where == 1 {
			tx = tx.Where(name + ".id > 2")
		}
		join := func(first bool) {
			switch {
			case c.Plain == 1 && first, c.Plain == 2 && !first:
				tx = tx.Joins("Owner")
			case c.Plain == 3 && first, c.Plain == 4 && !first:
				tx = tx.Joins("LEFT JOIN owners o ON o.id = " + name + ".owner_id")
			case c.Plain == 5 && first:
				tx = tx.InnerJoins("Owner")
			case c.Plain == 6 && first, c.Plain == 7 && !first:
				tx = tx.Joins("LEFT JOIN details d ON d.item_id = "+name+".id AND d.score > ?", 0)
			}
		}
		join(true)
		if c.List {
			tx = tx.Scopes(gormq.MiniQuery{Query: list}.Scope)
		} else {
			for _, q := range list {
				tx = applyGorm(tx, c.Way, q)
			}
		}
		join(false)
		if c.Where == 2 {
			tx = tx.Where(name + ".id > 2")
		}
		if c.Read == readWays {
			var n int64
			err = tx.Count(&n).Error
			ids = make([]int64, n)
			if int(n) == len(want) {
				ids = want
			}
		} else if c.Read == readWays+1 {
			// a column of which rows have the same value
			var names []sql.NullString
			err = tx.Pluck(name+".name", &names).Error
			var got, exp []string
			for _, v := range names {
				x, _ := v.Value()
				got = append(got, fmt.Sprint(x))
			}
			for _, id := range want {
				exp = append(exp, fmt.Sprint(c.Items[id-1][colIndex(itemCols, "name")].Go()))
			}
			sort.Strings(got)
			sort.Strings(exp)
			ids = make([]int64, len(names))
			if slices.Equal(got, exp) {
				ids = want
			}
		} else {
			ids, err = readFrom(tx, c.Read, name)
		}
	}); crash != nil {
		return failf("%q crashed: %v", list, crash)
	}
	if c.Many {
		r.Label("relation to many rows")
		r.NonTrivial(true)
		if sent := thePool.take(); err == nil || len(sent) > 0 {
			return failf("%q compares columns of many rows, error %v, sent %q", list, err, sent)
		}
		return nil
	}
	if limited(r, err, list...) {
		return nil
	}
	if err != nil {
		return failf("%q fails: %v; sent %q", list, err, thePool.take())
	}
	if !sameIDs(ids, want) {
		return failf("%q selects the rows %v, want %v; sent %q", list, sortedIDs(ids), want, thePool.take())
	}
	return nil
}

// ---- C19 ----

type useC19 struct {
	Q    int  `json:"q"`    // which filter
	On   int  `json:"on"`   // which handle
	Op   int  `json:"op"`   // how to read, or an operation with an invalid filter
	Skip bool `json:"skip"` // apply it but do not run anything
	None bool `json:"none"` // no filter at all
}

type filterC19 struct {
	Tree *N       `json:"tree,omitempty"` // nil: invalid
	List []string `json:"list"`
	Way  int      `json:"way"`
}

type caseC19 struct {
	Rows    [][]V       `json:"rows"`
	Filters []filterC19 `json:"filters"`
	Uses    []useC19    `json:"uses"`
	Procs   int         `json:"procs"` // goroutines, 0: none
}

const handlesC19 = 10

// Twin is another model of the table of Item: fields have each other's columns
type Twin struct {
	ID         int64   `gorm:"primaryKey"`
	Score      *int64  `gorm:"column:age"`
	Age        *int64  `gorm:"column:score"`
	Name       *string `gorm:"column:full_name"`
	FullName   *string `gorm:"column:name"`
	Active     *bool   `gorm:"column:open_flag"`
	OpenFlag   *bool   `gorm:"column:active"`
	HappenedAt *string
	Code       *string `gorm:"column:item_code"`
}

func (Twin) TableName() string { return "items" }

var twinIndex = map[string]int{}

func init() {
	swap := map[string]string{"age": "score", "score": "age", "name": "full_name", "full_name": "name", "active": "open_flag", "open_flag": "active"}
	for i, c := range itemCols {
		for _, s := range c.Gorm {
			if other, ok := swap[c.Name]; ok && s != c.Name {
				// not the column itself, so it is the field
				twinIndex[s] = colIndex(itemCols, other)
			} else {
				twinIndex[s] = i
			}
		}
	}
}

func genC19(t *rapid.T) (c caseC19) {
	c.Rows = genRows(t, itemCols, 3+pick(t, 6))
	g := gormGen()
	for i := 1 + pick(t, 4); i > 0; i-- {
		g := g
		if chance(t, 4) {
			g = gormGen()
			g.ref = relatedRef
		}
		f := filterC19{Way: pick(t, 6)}
		if chance(t, 4) {
			s, _ := genBadGorm(t)
			f.List = []string{s}
		} else {
			f.Tree = Fix(g.cond(t, pick(t, 3)))
			f.List = []string{Write(t, f.Tree, Loose)}
			if f.Way == 5 {
				n := Fix(g.cond(t, 1))
				f.List = append(f.List, Write(t, n, Loose))
				f.Tree = nLogic(nParen(f.Tree), "and", nParen(n))
			}
		}
		c.Filters = append(c.Filters, f)
	}
	for i := 2 + pick(t, 8); i > 0; i-- {
		c.Uses = append(c.Uses, useC19{Q: pick(t, len(c.Filters)), On: pick(t, handlesC19), Op: pick(t, gormOps), Skip: chance(t, 5), None: chance(t, 4)})
	}
	if pick(t, 2) == 1 {
		c.Procs = 2 + pick(t, 3)
	}
	return
}

func evalC19(c caseC19, r *Rec) error {
	db := openGorm(nil)
	fill("items", colNames(itemCols), c.Rows)
	fill("tickets", colNames(itemCols), c.Rows)
	before := dump("items")
	// filters are made once and used again and again
	var apply []func(*gorm.DB) *gorm.DB
	for _, f := range c.Filters {
		f := f
		mq := gormq.MiniQuery{Query: f.List}
		scope := gormq.ApplyMiniQuery(f.List[0])
		switch f.Way {
		case 0:
			apply = append(apply, func(db *gorm.DB) *gorm.DB { return db.Scopes(scope) })
		case 1:
			apply = append(apply, scope)
		case 2:
			apply = append(apply, func(db *gorm.DB) *gorm.DB { return gormq.WireMiniQuery(db, f.List[0]) })
		case 3:
			apply = append(apply, mq.Scope)
		default:
			apply = append(apply, func(db *gorm.DB) *gorm.DB { return db.Scopes(mq.Scope) })
		}
	}
	// handles that are shared by all uses, and the condition they have already
	type handle struct {
		db   func() *gorm.DB
		cond *N
		some func(id int64) bool
		all  bool // no condition
		// another model
		index map[string]int
		table string
	}
	all := func(int64) bool { return true }
	above := func(id int64) bool { return id > 2 }
	share := func(tx *gorm.DB) func() *gorm.DB { return func() *gorm.DB { return tx } }
	handles := []handle{
		{func() *gorm.DB { return db.Model(&Item{}) }, nil, all, true, gormItemIndex, "items"},
		{share(db.Model(&Item{}).Session(&gorm.Session{})), nil, all, true, gormItemIndex, "items"},
		{share(db.Model(&Item{}).Where("items.id > ?", 2).Session(&gorm.Session{})), nil, above, false, gormItemIndex, "items"},
		{share(db.Session(&gorm.Session{}).Model(&Item{}).WithContext(ctxBackground)), nil, all, true, gormItemIndex, "items"},
		{share(db.Model(Item{}).Session(&gorm.Session{NewDB: false, PrepareStmt: false})), nil, all, true, gormItemIndex, "items"},
		{func() *gorm.DB { return db.Session(&gorm.Session{NewDB: true}).Model(&[]Item{}) }, nil, all, true, gormItemIndex, "items"},
		{share(db.Scopes(gormq.ApplyMiniQuery("id > 2")).Model(&Item{}).Session(&gorm.Session{})), nil, above, false, gormItemIndex, "items"},
		{func() *gorm.DB { return db.Model(&Twin{}) }, nil, all, true, twinIndex, "items"},
		{share(db.Model(&Twin{}).Where("id > ?", 2).Session(&gorm.Session{})), nil, above, false, twinIndex, "items"},
		{func() *gorm.DB { return db.Model(&Ticket{}) }, nil, all, true, gormItemIndex, "tickets"},
	}
	use := func(u useC19) error {
		h := handles[u.On]
		tx := h.db()
		what := fmt.Sprintf("handle %d", u.On)
		holds := func([]V) bool { return true }
		related := false
		var err error
		if !u.None {
			f := c.Filters[u.Q]
			what += fmt.Sprintf(" with %q", f.List)
			tx = apply[u.Q](tx)
			if u.Skip {
				return nil
			}
			related = f.Tree != nil && f.Tree.has(func(n *N) bool { return n.K == "ref" })
			if (f.Tree == nil || related) && u.On >= 7 {
				// the other models have no relations
				var ids []int64
				if err := tx.Pluck("id", &ids).Error; err == nil {
					return failf("%s reports no error", what)
				}
				return nil
			}
			if f.Tree == nil {
				err, touched := runOp(tx, u.Op)
				if err == nil || touched {
					return failf("operation %d on %s reports no error", u.Op, what)
				}
				return nil
			}
			holds = func(row []V) bool {
				env := rowEnv(row, h.index)
				env.Ref = func([]string) V { return V{} } // there are no related rows
				return env.Holds(f.Tree)
			}
		} else if u.Skip && h.all {
			// without any condition gorm refuses to write
			if u.On == 0 || u.On == 7 {
				err = tx.Delete(tx.Statement.Model).Error
			} else {
				err = tx.UpdateColumn("name", "x").Error
			}
			if !errors.Is(err, gorm.ErrMissingWhereClause) {
				return failf("writing all rows on %s gives %v", what, err)
			}
			return nil
		}
		var ids []int64
		if u.On >= 7 || related {
			err = tx.Pluck(h.table+".id", &ids).Error
		} else {
			ids, err = readItems(tx, u.Op%readWays)
		}
		if limited(newRec(), err, what) {
			return nil
		}
		if err != nil {
			return failf("%s fails: %v", what, err)
		}
		want := matching(c.Rows, func(row []V) bool { return h.some(*row[0].I) && holds(row) })
		if !sameIDs(ids, want) {
			return failf("%s selects the rows %v, want %v", what, sortedIDs(ids), want)
		}
		return nil
	}
	r.NonTrivial(len(c.Uses) > 2)
	r.Label("goroutines: %d", c.Procs)
	seq := func() (err error) {
		if crash := guard(func() {
			for i, u := range c.Uses {
				if err = use(u); err != nil {
					err = failf("use %d: %v; sent %q", i, err, thePool.take())
					return
				}
				thePool.take()
			}
		}); crash != nil {
			return failf("crashed: %v", crash)
		}
		return
	}
	if c.Procs > 0 {
		// before anything else has been used
		var wg sync.WaitGroup
		errs := make([]error, c.Procs)
		for p := 0; p < c.Procs; p++ {
			wg.Add(1)
			go func(p int) {
				defer wg.Done()
				if crash := guard(func() {
					for i := range c.Uses {
						u := c.Uses[(i+p)%len(c.Uses)]
						if errs[p] = use(u); errs[p] != nil {
							return
						}
					}
				}); crash != nil {
					errs[p] = failf("crashed: %v", crash)
				}
			}(p)
		}
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				return failf("in %d goroutines: %v", c.Procs, err)
			}
		}
		thePool.take()
	}
	if err := seq(); err != nil {
		return err
	}
	if !reflect.DeepEqual(before, dump("items")) {
		return failf("reading changed the table")
	}
	return nil
}

func init() {
	register(Prop{ID: "C18", Quick: 160000, Thor: 500000,
		Rule: "conditions on own and related columns over random related tables; non-trivial: a related column is used and some but not all rows are selected"}, genC18, evalC18)
	register(Prop{ID: "C19", Quick: 5000, Thor: 20000, Race: true, Procs: 4,
		Rule: "valid and invalid filters used again and again on shared handles, in sequence and in goroutines, under the race detector; non-trivial: 3 uses or more"}, genC19, evalC19)
}
