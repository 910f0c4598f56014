package main

import (
	"fmt"
	"slices"

	"github.com/wenerme/go-miniquery/gormq"
	"gorm.io/gorm"
	"pgregory.net/rapid"
)

// ---- C30 ----

type caseC30 struct {
	Mode int `json:"mode,omitempty"` // settings of the handle
	relData
	Parts  [][]V      `json:"parts"`
	PartOf []int64    `json:"partOf"` // 0: none
	Labels [][]V      `json:"labels"`
	Links  [][2]int64 `json:"links"` // item and label
	Path   string     `json:"path"`
	Q      []caseQ    `json:"q"`             // all apply
	Bad    string     `json:"bad,omitempty"` // or an invalid one
	Way    int        `json:"way"`
	Of     int64      `json:"of"` // 0: preload, else the association of this item
	Join   bool       `json:"join,omitempty"`
	All    bool       `json:"all"` // the association of all items
	Count  bool       `json:"count"`
	Top    *caseQ     `json:"top,omitempty"`  // for the items of a preload
	Also   string     `json:"also,omitempty"` // another preload, with its own filter
	AlsoQ  *caseQ     `json:"alsoQ,omitempty"`
}

var (
	partCols  = []column{{"id", 'i', []string{"id", "ID"}, nil}, {"name", 's', []string{"name", "Name", "NAME"}, nil}, {"item_id", 'i', []string{"item_id", "ItemID", "itemid", "ItemId"}, nil}}
	labelCols = []column{{"id", 'i', []string{"id", "ID", "Id"}, nil}, {"name", 's', []string{"name", "Name", "NAME"}, nil}}
	partIndex = gormIndex(partCols)
	labelIdx  = gormIndex(labelCols)
)

// columns of what a preload loads
var pathCols = map[string][]column{
	"Owner": ownerCols, "Boss": ownerCols, "Detail": detailCols, "Image": imageCols, "Memo": memoCols, "Parent": itemCols,
	"Parts": partCols, "Labels": labelCols, "Parent.Owner": ownerCols, "Parent.Parts": partCols, "Parent.Labels": labelCols,
	"Parent.Parent": itemCols, "Parent.Boss": ownerCols, "Parent.Detail": detailCols, "Parent.Image": imageCols, "Parent.Memo": memoCols,
}

// what can be joined
var joinModels = map[string]any{"Owner": &Owner{}, "Boss": &Owner{}, "Detail": &Detail{}, "Image": &Image{}, "Memo": &Memo{}, "Parent": &Item{}}

var (
	pathNames = []string{"Parts", "Owner", "Labels", "Parent", "Detail", "Boss", "Image", "Memo", "Parent.Owner", "Parent.Parts", "Parent.Labels", "Parent.Parent", "Parent.Boss", "Parent.Detail", "Parent.Image", "Parent.Memo"}
	assocs    = []string{"Parts", "Owner", "Labels", "Parent", "Detail", "Memo", "Boss", "Image"}
)

func genC30(t *rapid.T) (c caseC30) {
	c.Mode = genMode(t)
	c.relData = genRelData(t)
	n := len(c.Items)
	c.Parts = genRows(t, partCols[:2], 1+pick(t, 8))
	for i := range c.Parts {
		id := int64((1 + pick(t, n+2)) % (n + 2))
		v := V{}
		if id > 0 {
			v = vInt(id)
		}
		c.PartOf = append(c.PartOf, id)
		c.Parts[i] = append(c.Parts[i], v)
	}
	c.Labels = genRows(t, labelCols, 1+pick(t, 4))
	for i := range c.Items {
		for k := range c.Labels {
			if chance(t, 3) {
				c.Links = append(c.Links, [2]int64{int64(i + 1), int64(k + 1)})
			}
		}
	}
	c.Path = oneOf(t, pathNames)
	if chance(t, 3) {
		c.Path = oneOf(t, assocs)
		c.Of = int64(1 + pick(t, n))
		c.All, c.Count = chance(t, 4), chance(t, 3)
	}
	c.Way = pick(t, 5)
	if c.Of == 0 && joinModels[c.Path] != nil && chance(t, 3) {
		// gorm does not run the scopes of a join condition
		c.Join, c.Way = true, oneOf(t, []int{1, 3, 4})
	}
	g := &condGen{cols: pathCols[c.Path], name: anySpelling}
	if c.Path == "Parent" && !c.Join && pick(t, 2) == 1 {
		g.ref = relatedRef
	}
	for i := oneOf(t, []int{1, 1, 2}); i > 0; i-- {
		c.Q = append(c.Q, writeQ(t, g.query(t)))
	}
	if chance(t, 6) {
		var names []*N
		for _, k := range itemCols {
			if _, ok := gormIndex(pathCols[c.Path])[k.Name]; !ok {
				names = append(names, nID(oneOf(t, k.Gorm)))
			}
		}
		if c.Path != "Parent" && c.Path != "Parent.Parent" {
			names = append(names, nRef("Owner", "name"), nRef("Parent", "id"), nID("owner_id"))
		} else {
			names = append(names, nID("owner_note"), nID("nope"), nRef("Parts", "name"))
		}
		x := nPred(oneOf(t, names), oneOf(t, []string{"is null", "is not null"}))
		if pick(t, 2) == 1 {
			x = nLogic(x, oneOf(t, []string{"or", "and"}), g.query(t))
		}
		c.Bad = Write(t, Fix(x), Loose)
		if chance(t, 5) {
			c.Bad = oneOf(t, []string{"(", "id = ", "name 'a'", "id = 1)"})
		}
	}
	if c.Of == 0 && chance(t, 4) {
		q := writeQ(t, gormGen().query(t))
		c.Top = &q
	}
	// gorm does not preload what is joined
	if p := oneOf(t, pathNames); c.Of == 0 && p != c.Path && !((c.Join || g.ref != nil) && len(p) > 5 && p[:6] == c.Path) && chance(t, 3) {
		g := &condGen{cols: pathCols[p], name: anySpelling}
		q := writeQ(t, g.query(t))
		c.Also, c.AlsoQ = p, &q
	}
	return
}

// related gives the ids of all rows a path leads to from an item, and how to evaluate them
func (c caseC30) related(i int, path string) (ids []int64, env func(id int64) *Env) {
	if len(path) > 7 && path[:7] == "Parent." {
		p := c.Parent[i]
		if p <= 0 || int(p) > len(c.Items) || !c.hasParent(int(p)-1) {
			return nil, nil
		}
		i, path = int(p)-1, path[7:]
	}
	rows := func(rows [][]V, index map[string]int) {
		env = func(id int64) *Env { return rowEnv(rows[id-1], index) }
	}
	one := func(id int64, n int) {
		if id > 0 && int(id) <= n {
			ids = []int64{id}
		}
	}
	of := func(owner []int64) {
		for k, id := range owner {
			if id == int64(i+1) {
				ids = append(ids, int64(k+1))
			}
		}
	}
	switch path {
	case "Owner":
		one(c.OwnerID[i], len(c.Owners))
		rows(c.Owners, ownerIndex)
	case "Boss":
		one(c.BossID[i], len(c.Owners))
		rows(c.Owners, ownerIndex)
	case "Parent":
		one(c.Parent[i], len(c.Items))
		env = func(id int64) *Env { return c.env(int(id - 1)) }
	case "Detail":
		of(c.ItemID)
		rows(c.Details, detailIndex)
	case "Image":
		of(c.Holder)
		rows(c.Images, imageIndex)
	case "Memo":
		of(c.MemoOf)
		rows(c.Memos, memoIndex)
	case "Parts":
		of(c.PartOf)
		rows(c.Parts, partIndex)
	case "Labels":
		for _, l := range c.Links {
			if l[0] == int64(i+1) {
				ids = append(ids, l[1])
			}
		}
		rows(c.Labels, labelIdx)
	default:
		panic("path " + path)
	}
	return
}

// hasParent tells whether an item is loaded as a parent of others
func (c caseC30) hasParent(i int) bool {
	if c.Of != 0 {
		return true
	}
	if c.Path == "Parent" {
		for _, q := range c.Q {
			if !c.env(i).Holds(q.Tree) {
				return false
			}
		}
	}
	return c.Also != "Parent" || c.env(i).Holds(c.AlsoQ.Tree)
}

// keys tells whether there is anything to look for, gorm does not ask otherwise
func (c caseC30) keys(items []int) bool {
	path := c.Path
	if len(path) > 7 && path[:7] == "Parent." {
		var parents []int
		for _, i := range items {
			if p := c.Parent[i]; p > 0 && int(p) <= len(c.Items) && c.hasParent(int(p)-1) {
				parents = append(parents, int(p)-1)
			}
		}
		items, path = parents, path[7:]
	}
	return slices.ContainsFunc(items, func(i int) bool {
		switch path {
		case "Owner":
			return c.OwnerID[i] != 0
		case "Boss":
			return c.BossID[i] != 0
		case "Parent":
			return c.Parent[i] != 0
		case "Labels":
			return slices.ContainsFunc(c.Links, func(l [2]int64) bool { return l[0] == int64(i+1) })
		}
		return true
	})
}

// loaded gives the ids of what was loaded
func loaded(it *Item, path string) (ids []int64) {
	if len(path) > 7 && path[:7] == "Parent." {
		if it.Parent == nil {
			return nil
		}
		return loaded(it.Parent, path[7:])
	}
	switch path {
	case "Owner":
		if it.Owner != nil {
			ids = append(ids, it.Owner.ID)
		}
	case "Boss":
		if it.Boss != nil {
			ids = append(ids, it.Boss.ID)
		}
	case "Parent":
		if it.Parent != nil {
			ids = append(ids, it.Parent.ID)
		}
	case "Detail":
		if it.Detail != nil {
			ids = append(ids, it.Detail.ID)
		}
	case "Image":
		if it.Image != nil {
			ids = append(ids, it.Image.ID)
		}
	case "Memo":
		if it.Memo != nil {
			ids = append(ids, it.Memo.ID)
		}
	case "Parts":
		for _, v := range it.Parts {
			ids = append(ids, v.ID)
		}
	case "Labels":
		for _, v := range it.Labels {
			ids = append(ids, v.ID)
		}
	}
	return
}

// assocIDs reads an association
func assocIDs(a *gorm.Association, path string) (ids []int64, err error) {
	switch path {
	case "Owner", "Boss":
		var s []Owner
		err = a.Find(&s)
		for _, v := range s {
			ids = append(ids, v.ID)
		}
	case "Parent":
		var s []Item
		err = a.Find(&s)
		for _, v := range s {
			ids = append(ids, v.ID)
		}
	case "Detail":
		var s []Detail
		err = a.Find(&s)
		for _, v := range s {
			ids = append(ids, v.ID)
		}
	case "Image":
		var s []Image
		err = a.Find(&s)
		for _, v := range s {
			ids = append(ids, v.ID)
		}
	case "Memo":
		var s []*Memo
		err = a.Find(&s)
		for _, v := range s {
			ids = append(ids, v.ID)
		}
	case "Parts":
		var s []Part
		err = a.Find(&s)
		for _, v := range s {
			ids = append(ids, v.ID)
		}
	case "Labels":
		var s []*Label
		err = a.Find(&s)
		for _, v := range s {
			ids = append(ids, v.ID)
		}
	default:
		panic("association " + path)
	}
	return
}

func evalC30(c caseC30, r *Rec) error {
	c.fill()
	fill("parts", colNames(partCols), c.Parts)
	fill("labels", colNames(labelCols), c.Labels)
	var links [][]V
	for _, l := range c.Links {
		links = append(links, []V{vInt(l[0]), vInt(l[1]), vStr("a")})
	}
	fill("item_labels", []string{"item_id", "label_id", "name"}, links)
	db, done := openMode(c.Mode)
	defer done()

	var list []string
	for _, q := range c.Q {
		list = append(list, q.Text)
	}
	if c.Bad != "" {
		list = append(list, c.Bad)
	}
	apply := func(tx *gorm.DB) *gorm.DB {
		switch c.Way {
		case 0:
			return tx.Scopes(gormq.MiniQuery{Query: list}.Scope)
		case 1:
			return gormq.MiniQuery{Query: list}.Scope(tx)
		}
		for _, q := range list {
			switch c.Way {
			case 2:
				tx = tx.Scopes(gormq.ApplyMiniQuery(q))
			case 3:
				tx = gormq.ApplyMiniQuery(q)(tx)
			default:
				tx = gormq.WireMiniQuery(tx, q)
			}
		}
		return tx
	}
	holds := func(e *Env) bool {
		for _, q := range c.Q {
			if !e.Holds(q.Tree) {
				return false
			}
		}
		return true
	}
	// per item: what is related, and what of it matches
	var items []int
	want := map[int][]int64{}
	also := map[int][]int64{}
	some, all := 0, 0
	for i := range c.Items {
		if c.Of != 0 && !c.All && c.Of != int64(i+1) || c.Top != nil && !rowEnv(c.Items[i], gormItemIndex).Holds(c.Top.Tree) {
			continue
		}
		items = append(items, i)
		ids, env := c.related(i, c.Path)
		all += len(ids)
		for _, id := range ids {
			if holds(env(id)) {
				want[i] = append(want[i], id)
				some++
			}
		}
		if c.Also != "" {
			ids, env := c.related(i, c.Also)
			for _, id := range ids {
				if env(id).Holds(c.AlsoQ.Tree) {
					also[i] = append(also[i], id)
				}
			}
		}
	}
	r.Label("%s, association: %v", c.Path, c.Of != 0)
	r.NonTrivial(c.Bad != "" || some > 0 && some < all)
	what := fmt.Sprintf("preloading %s with %q", c.Path, list)
	if c.Join {
		what = fmt.Sprintf("joining %s with %q", c.Path, list)
		r.Label("join")
	}
	if c.Of != 0 {
		what = fmt.Sprintf("the association %s with %q", c.Path, list)
	}

	thePool.take()
	got := map[int][]int64{}
	gotAlso := map[int][]int64{}
	var err error
	count := int64(-1)
	if crash := guard(func() {
		if c.Of == 0 {
			tx := db.Model(&Item{})
			if c.Top != nil {
				tx = tx.Scopes(gormq.ApplyMiniQuery(c.Top.Text))
			}
			var found []Item
			if c.Join {
				tx = tx.Joins(c.Path, apply(db.Model(joinModels[c.Path])))
			} else {
				tx = tx.Preload(c.Path, apply)
			}
			if c.Also != "" {
				tx = tx.Preload(c.Also, gormq.ApplyMiniQuery(c.AlsoQ.Text))
			}
			if err = tx.Find(&found).Error; err != nil {
				return
			}
			for k := range found {
				got[int(found[k].ID)-1] = loaded(&found[k], c.Path)
				gotAlso[int(found[k].ID)-1] = loaded(&found[k], c.Also)
			}
			if len(found) != len(items) {
				err = failf("%d items are found, want %d", len(found), len(items))
			}
			return
		}
		var found []Item
		must(db.Find(&found).Error)
		thePool.take()
		var model any = &found[c.Of-1]
		if c.All {
			model = &found
		}
		// only a scope sees the model of the association
		a := db.Model(model).Scopes(apply).Association(c.Path)
		if c.Count {
			count = a.Count()
			err = a.Error
			return
		}
		var ids []int64
		ids, err = assocIDs(a, c.Path)
		got[0] = ids
	}); crash != nil {
		return failf("%s crashed: %v", what, crash)
	}
	sent := thePool.take()
	if c.Bad != "" {
		if err == nil && (c.Of != 0 || c.Join || c.keys(items)) {
			return failf("%s reports no error, sent %q", what, sent)
		}
		return nil
	}
	texts := list
	if c.Top != nil {
		texts = append(texts[:len(texts):len(texts)], c.Top.Text)
	}
	if c.Also != "" {
		what += fmt.Sprintf(" and %s with %q", c.Also, c.AlsoQ.Text)
		texts = append(texts[:len(texts):len(texts)], c.AlsoQ.Text)
		r.Label("two")
	}
	if limited(r, err, texts...) {
		return nil
	}
	if err != nil {
		return failf("%s fails: %v; sent %q", what, err, sent)
	}
	if c.Of != 0 {
		var exp []int64
		for _, ids := range want {
			exp = append(exp, ids...)
		}
		ids := got[0]
		if c.All {
			// a row may be related to several
			slices.Sort(exp)
			exp = slices.Compact(exp)
			slices.Sort(ids)
			ids = slices.Compact(ids)
		}
		if count >= 0 {
			if !c.All && count != int64(len(exp)) {
				return failf("%s counts %d, want %d; sent %q", what, count, len(exp), sent)
			}
			return nil
		}
		if !sameIDs(ids, exp) {
			return failf("%s finds the rows %v, want %v; sent %q", what, sortedIDs(ids), exp, sent)
		}
		return nil
	}
	for _, i := range items {
		if !sameIDs(got[i], want[i]) {
			return failf("%s loads the rows %v for item %d, want %v; sent %q", what, sortedIDs(got[i]), i+1, want[i], sent)
		}
		if !sameIDs(gotAlso[i], also[i]) {
			return failf("%s loads the rows %v of %s for item %d, want %v; sent %q", what, sortedIDs(gotAlso[i]), c.Also, i+1, also[i], sent)
		}
	}
	return nil
}

func init() {
	register(Prop{ID: "C30", Quick: 120000, Thor: 500000,
		Rule: "filters on preloads and associations of every kind of relation over random related tables; non-trivial: an invalid filter, or some but not all related rows match"}, genC30, evalC30)
}
