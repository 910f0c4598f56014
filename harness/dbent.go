package main

import (
	"strings"

	"entgo.io/ent/dialect"
	"entgo.io/ent/dialect/sql"
	"entgo.io/ent/dialect/sql/sqlgraph"
	"entgo.io/ent/schema/field"
	"github.com/wenerme/go-miniquery/entmq"
	"pgregory.net/rapid"
)

// edgeDef is our own description of an edge, for the oracle and the graph
type edgeDef struct {
	From, Name, To string
	Rel            sqlgraph.Rel
	Inverse        bool
	Table          string
	Cols           []string
}

// the key of tags is not called id
var tagCols = []column{
	{"tag_no", 'i', nil, []string{"tag_no", "tagNo", "TagNo"}},
	{"name", 's', nil, []string{"name", "Name"}},
	{"score", 'i', nil, []string{"score", "Score"}},
	{"active", 'b', nil, []string{"active", "Active"}},
	{"happened_at", 't', nil, []string{"happened_at", "happenedAt", "HappenedAt"}},
}

var entOwnerCols = []column{
	{"id", 'i', nil, []string{"id", "ID"}},
	{"name", 's', nil, []string{"name", "Name"}},
	{"age", 'i', nil, []string{"age", "Age"}},
	{"active", 'b', nil, []string{"active", "Active"}},
	{"joined_at", 't', nil, []string{"joined_at", "joinedAt", "JoinedAt"}},
	{"owner_note", 's', nil, []string{"owner_note", "ownerNote", "OwnerNote"}},
}

var entDetailCols = []column{
	{"id", 'i', nil, []string{"id", "ID"}},
	{"name", 's', nil, []string{"name", "Name"}},
	{"score", 'i', nil, []string{"score", "Score"}},
	{"w", 'i', nil, []string{"w", "W"}},
	{"active", 'b', nil, []string{"active", "Active"}},
	{"joined_at", 't', nil, []string{"joined_at", "joinedAt", "JoinedAt"}},
}

var (
	entTables = map[string]string{"Item": "items", "Owner": "owners", "Detail": "details", "Tag": "tags"}
	entCols   = map[string][]column{"Item": itemCols, "Owner": entOwnerCols, "Detail": entDetailCols, "Tag": tagCols}
	entEdges  = []edgeDef{
		{"Item", "owner", "Owner", sqlgraph.M2O, true, "items", []string{"owner_id"}},
		{"Item", "parent", "Item", sqlgraph.M2O, true, "items", []string{"parent_id"}},
		{"Item", "children", "Item", sqlgraph.O2M, false, "items", []string{"parent_id"}},
		{"Item", "detail", "Detail", sqlgraph.O2O, false, "details", []string{"item_id"}},
		{"Item", "tags", "Tag", sqlgraph.M2M, false, "item_tags", []string{"item_id", "tag_id"}},
		{"Item", "friends", "Item", sqlgraph.M2M, false, "item_friends", []string{"item_id", "friend_id"}},
		{"Item", "followers", "Item", sqlgraph.M2M, true, "item_friends", []string{"item_id", "friend_id"}},
		{"Item", "next", "Item", sqlgraph.O2O, true, "items", []string{"next_id"}},
		{"Item", "prevItem", "Item", sqlgraph.O2O, false, "items", []string{"next_id"}},
		{"Owner", "items", "Item", sqlgraph.O2M, false, "items", []string{"owner_id"}},
		{"Detail", "item", "Item", sqlgraph.O2O, true, "details", []string{"item_id"}},
		{"Tag", "items", "Item", sqlgraph.M2M, true, "item_tags", []string{"item_id", "tag_id"}},
		{"Item", "mainTag", "Tag", sqlgraph.M2O, false, "items", []string{"main_tag"}},
		{"Tag", "mainItems", "Item", sqlgraph.O2M, true, "items", []string{"main_tag"}},
		{"Tag", "kind", "Tag", sqlgraph.M2O, true, "tags", []string{"kind_no"}},
		{"Tag", "kinds", "Tag", sqlgraph.O2M, false, "tags", []string{"kind_no"}},
		{"Tag", "likes", "Tag", sqlgraph.M2M, false, "tag_likes", []string{"from_no", "to_no"}},
		{"Tag", "liked", "Tag", sqlgraph.M2M, true, "tag_likes", []string{"from_no", "to_no"}},
	}
	entIndex = map[string]map[string]int{}
)

func init() {
	for typ, cols := range entCols {
		m := map[string]int{}
		for i, c := range cols {
			for _, s := range c.Ent {
				m[s] = i
			}
		}
		entIndex[typ] = m
	}
}

// entGraph is a fresh description of the graph for ent
func entGraph() *sqlgraph.Schema {
	g := &sqlgraph.Schema{}
	for _, typ := range []string{"Item", "Owner", "Detail", "Tag"} {
		n := &sqlgraph.Node{
			NodeSpec: sqlgraph.NodeSpec{Table: entTables[typ], ID: &sqlgraph.FieldSpec{Type: field.TypeInt64, Column: entCols[typ][0].Name}},
			Type:     typ,
			Fields:   map[string]*sqlgraph.FieldSpec{},
		}
		for _, c := range entCols[typ] {
			n.Fields[c.Name] = &sqlgraph.FieldSpec{Type: field.TypeString, Column: c.Name}
		}
		g.Nodes = append(g.Nodes, n)
	}
	for _, e := range entEdges {
		g.MustAddE(e.Name, &sqlgraph.EdgeSpec{Rel: e.Rel, Inverse: e.Inverse, Table: e.Table, Columns: e.Cols}, e.From, e.To)
	}
	return g
}

func entNode(g *sqlgraph.Schema, typ string) *sqlgraph.Node {
	for _, n := range g.Nodes {
		if n.Type == typ {
			return n
		}
	}
	panic(typ)
}

// entData is the content of the tables; ids are 1..n, 0 means none
type entData struct {
	Items   [][]V      `json:"items"`
	Owner   []int64    `json:"owner,omitempty"`
	Parent  []int64    `json:"parent,omitempty"`
	Next    []int64    `json:"next,omitempty"` // no two are equal
	Owners  [][]V      `json:"owners,omitempty"`
	Details [][]V      `json:"details,omitempty"`
	ItemID  []int64    `json:"itemID,omitempty"` // of a detail, no two are equal
	Tags    [][]V      `json:"tags,omitempty"`
	Tagged  [][2]int64 `json:"tagged,omitempty"`  // item, tag
	Friends [][2]int64 `json:"friends,omitempty"` // item, item
	MainTag []int64    `json:"mainTag,omitempty"` // of an item
	Kind    []int64    `json:"kind,omitempty"`    // of a tag
	Likes   [][2]int64 `json:"likes,omitempty"`   // tag, tag
}

func genEntData(t *rapid.T) (d entData) {
	d.Items = genRows(t, itemCols, 1+pick(t, 6))
	d.Owners = genRows(t, entOwnerCols, pick(t, 4))
	d.Details = genRows(t, entDetailCols, pick(t, 4))
	d.Tags = genRows(t, tagCols, pick(t, 4))
	ref := func(n int) int64 { return int64((1 + pick(t, n+1)) % (n + 1)) }
	used, usedD := map[int64]bool{}, map[int64]bool{}
	unique := func(m map[int64]bool, id int64) int64 {
		if m[id] {
			return 0
		}
		m[id] = true
		return id
	}
	for range d.Items {
		d.Owner = append(d.Owner, ref(len(d.Owners)))
		d.Parent = append(d.Parent, ref(len(d.Items)))
		d.Next = append(d.Next, unique(used, ref(len(d.Items))))
		d.MainTag = append(d.MainTag, ref(len(d.Tags)))
	}
	for range d.Details {
		d.ItemID = append(d.ItemID, unique(usedD, ref(len(d.Items))))
	}
	for range d.Tags {
		d.Kind = append(d.Kind, ref(len(d.Tags)))
	}
	pairs := func(m, n int) (s [][2]int64) {
		if m*n == 0 {
			return
		}
		seen := map[[2]int64]bool{}
		for i := pick(t, 6); i > 0; i-- {
			p := [2]int64{1 + int64(pick(t, m)), 1 + int64(pick(t, n))}
			if !seen[p] {
				seen[p] = true
				s = append(s, p)
			}
		}
		return
	}
	d.Tagged = pairs(len(d.Items), len(d.Tags))
	d.Friends = pairs(len(d.Items), len(d.Items))
	d.Likes = pairs(len(d.Tags), len(d.Tags))
	return
}

func (d *entData) fill() {
	zero := make([]int64, len(d.Items))
	if len(d.Owner) == 0 {
		d.Owner, d.Parent, d.Next, d.MainTag = zero, zero, zero, zero
	}
	fill("items", append(colNames(itemCols), "owner_id", "parent_id", "next_id", "main_tag"), withIDs(d.Items, d.Owner, d.Parent, d.Next, d.MainTag))
	fill("owners", colNames(entOwnerCols), d.Owners)
	fill("details", append(colNames(entDetailCols), "item_id"), withIDs(d.Details, d.ItemID))
	fill("tags", append(colNames(tagCols), "kind_no"), withIDs(d.Tags, d.Kind))
	join := func(table string, cols []string, pairs [][2]int64) {
		var rows [][]V
		for i, p := range pairs {
			// the other columns must not matter
			rows = append(rows, []V{vInt(int64(i + 1)), vStr("a"), vInt(p[0]), vInt(p[1])})
		}
		fill(table, cols, rows)
	}
	join("item_tags", []string{"id", "name", "item_id", "tag_id"}, d.Tagged)
	join("item_friends", []string{"id", "name", "item_id", "friend_id"}, d.Friends)
	join("tag_likes", []string{"id", "name", "from_no", "to_no"}, d.Likes)
}

func (d *entData) rows(typ string) [][]V {
	switch typ {
	case "Item":
		return d.Items
	case "Owner":
		return d.Owners
	case "Detail":
		return d.Details
	}
	return d.Tags
}

// neighbours gives the ids over an edge
func (d *entData) neighbours(typ, edge string, id int64) (ids []int64) {
	one := func(id int64) {
		if id != 0 {
			ids = append(ids, id)
		}
	}
	where := func(s []int64) {
		for i, v := range s {
			if v == id {
				ids = append(ids, int64(i+1))
			}
		}
	}
	over := func(s [][2]int64, from, to int) {
		for _, p := range s {
			if p[from] == id {
				ids = append(ids, p[to])
			}
		}
	}
	switch typ + "." + edge {
	case "Item.owner":
		one(d.Owner[id-1])
	case "Item.parent":
		one(d.Parent[id-1])
	case "Item.children":
		where(d.Parent)
	case "Item.detail":
		where(d.ItemID)
	case "Item.tags":
		over(d.Tagged, 0, 1)
	case "Item.friends":
		over(d.Friends, 0, 1)
	case "Item.followers":
		over(d.Friends, 1, 0)
	case "Item.next":
		one(d.Next[id-1])
	case "Item.prevItem":
		where(d.Next)
	case "Owner.items":
		where(d.Owner)
	case "Detail.item":
		one(d.ItemID[id-1])
	case "Tag.items":
		over(d.Tagged, 1, 0)
	case "Item.mainTag":
		one(d.MainTag[id-1])
	case "Tag.mainItems":
		where(d.MainTag)
	case "Tag.kind":
		one(d.Kind[id-1])
	case "Tag.kinds":
		where(d.Kind)
	case "Tag.likes":
		over(d.Likes, 0, 1)
	case "Tag.liked":
		over(d.Likes, 1, 0)
	default:
		panic("edge " + typ + "." + edge)
	}
	return
}

// env evaluates for one row of a node type
func (d *entData) env(typ string, id int64) *Env {
	e := rowEnv(d.rows(typ)[id-1], entIndex[typ])
	e.Func = func(n *N, outer *Env) (V, bool) {
		if n.S != "has_edge" {
			return V{}, false
		}
		to := ""
		for _, x := range entEdges {
			if x.From == typ && x.Name == n.A[0].S {
				to = x.To
			}
		}
		for _, k := range d.neighbours(typ, n.A[0].S, id) {
			if len(n.A) == 1 {
				return vInt(1), true
			}
			in := d.env(to, k)
			in.NotBetweenAnd, in.UsedNB = outer.NotBetweenAnd, outer.UsedNB
			if in.Holds(n.A[1]) {
				return vInt(1), true
			}
		}
		return vInt(0), true
	}
	return e
}

// ---- generators ----

func entSpelling(t *rapid.T, c column) string { return oneOf(t, c.Ent) }

func entGen(typ string) *condGen {
	return &condGen{cols: entCols[typ], name: entSpelling, noTF: true}
}

// edgeGen draws conditions with edges
func edgeGen(typ string) *condGen {
	g := entGen(typ)
	g.edge = func(t *rapid.T, d int) *N { return genEdge(t, typ, d) }
	return g
}

func genEdge(t *rapid.T, typ string, d int) *N {
	var s []edgeDef
	for _, e := range entEdges {
		if e.From == typ {
			s = append(s, e)
		}
	}
	e := oneOf(t, s)
	if d <= 0 || chance(t, 4) {
		return nFn("has_edge", nID(e.Name))
	}
	in := edgeGen(e.To).cond(t, min(d, 3))
	if pick(t, 3) == 2 {
		in = genEdge(t, e.To, d-1)
	}
	if !edgeArg(in) {
		in = nParen(in)
	}
	return nFn("has_edge", nID(e.Name), in)
}

// edgeArg says if a tree can be the condition of an edge as it is
func edgeArg(n *N) bool { return !n.isLit() && n.K != "id" }

// ---- use of the filter ----

var entDialects = []string{dialect.SQLite, dialect.Postgres, dialect.MySQL}

func entFilter(text, dia string, g *sqlgraph.Schema, noCast bool) *entmq.MiniQLToEntSQLBuilder {
	mb := &entmq.MiniQLToEntSQLBuilder{QueryString: text, DisableTypeCasting: noCast}
	if g != nil {
		mb.Node, mb.Graph = entNode(g, "Item"), g
	}
	mb.SetDialect(dia)
	return mb
}

// entP makes a predicate of a filter
func entP(mb *entmq.MiniQLToEntSQLBuilder, direct bool) *sql.Predicate {
	return sql.P(func(b *sql.Builder) {
		if direct {
			mb.SQLBuilder = b
			mb.Query()
			b.AddError(mb.Err())
			return
		}
		b.Join(mb)
	})
}

func entSelect(dia string) *sql.Selector { return entSelectOf(dia, "Item") }

func entSelectOf(dia, typ string) *sql.Selector {
	t := sql.Dialect(dia).Table(entTables[typ])
	return sql.Dialect(dia).Select(t.C(entCols[typ][0].Name)).From(t)
}

// toSQLite rewrites numbered parameters and casts, which SQLite has not
func toSQLite(q string) string {
	var sb strings.Builder
	var quote byte
	for i := 0; i < len(q); i++ {
		c := q[i]
		switch {
		case quote != 0:
			if c == quote {
				quote = 0
			}
		case c == '"' || c == '`' || c == '\'':
			quote = c
		case c == '$':
			sb.WriteByte('?')
			for i+1 < len(q) && q[i+1] >= '0' && q[i+1] <= '9' {
				i++
				sb.WriteByte(q[i])
			}
			if strings.HasPrefix(q[i+1:], "::") {
				i += 2
				for i+1 < len(q) && isWord(q[i+1]) {
					i++
				}
			}
			continue
		}
		sb.WriteByte(c)
	}
	return sb.String()
}

const entWays = 4

// entIDs reads the ids of items a filter selects
func entIDs(mb *entmq.MiniQLToEntSQLBuilder, dia string, way int) (ids []int64, query string, err error) {
	return entIDsOf("Item", mb, dia, way)
}

func entIDsOf(typ string, mb *entmq.MiniQLToEntSQLBuilder, dia string, way int) (ids []int64, query string, err error) {
	var args []any
	if way == 0 {
		query, args = mb.Query()
		if err = mb.Err(); err != nil {
			return
		}
		query = "SELECT " + entCols[typ][0].Name + " FROM " + entTables[typ] + " WHERE " + query
	} else {
		s := entSelectOf(dia, typ)
		if way == 3 {
			s.Where(sql.GT(s.C(entCols[typ][0].Name), 0))
		}
		s.Where(entP(mb, way == 2))
		query, args = s.Query()
		if err = s.Err(); err != nil {
			return
		}
	}
	if dia == dialect.Postgres {
		ids, err = queryIDs(toSQLite(query), args...)
	} else {
		ids, err = queryIDs(query, args...)
	}
	return
}
