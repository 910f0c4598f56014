package main

import (
	"context"
	"reflect"
	"slices"
	"strings"
	"sync"

	"github.com/wenerme/go-miniquery/gormq"
	"gorm.io/gorm"
	"gorm.io/gorm/schema"
	"pgregory.net/rapid"
)

// ---- C33 ----

type caseC33 struct {
	Steps []stepC33 `json:"steps"`
}

// stepC33 is a handle that is asked for its schema
type stepC33 struct {
	Model  string     `json:"model"`            // "": none
	Fields []fieldC13 `json:"fields,omitempty"` // of a model of its own
	Mode   int        `json:"mode,omitempty"`
	Form   int        `json:"form"`
	Other  string     `json:"other,omitempty"` // the schema the statement has already
	Does   []int      `json:"does"`
}

var modelsC33 = map[string]any{"Item": Item{}, "Owner": Owner{}, "Detail": Detail{}, "Image": Image{}, "Memo": Memo{}, "Ticket": Ticket{}, "Part": Part{}, "Label": Label{}, "Rel": RelC13{}}

// no models
var noModels = map[string]any{"int": 1, "string": "items", "map": map[string]any{"id": 1}, "slice": []int{1}, "func": func() {}, "chan": make(chan int), "bool": true, "pointer": new(int), "maps": []map[string]any{{}}}

func genC33(t *rapid.T) (c caseC33) {
	for i := 1 + pick(t, 3); i > 0; i-- {
		var s stepC33
		switch k := pick(t, 8); {
		case k == 0:
			s.Model = oneOf(t, sortedKeys(noModels))
		case k == 1:
			s.Model = ""
		case k < 4:
			m := genC13(t)
			s.Model, s.Fields, s.Mode = "own", m.Fields, m.Mode
		default:
			s.Model = oneOf(t, sortedKeys(modelsC33))
		}
		s.Form = pick(t, 7)
		if chance(t, 3) {
			s.Other = oneOf(t, sortedKeys(modelsC33))
		}
		for k := pick(t, 5); k > 0; k-- {
			s.Does = append(s.Does, pick(t, doesC33))
		}
		c.Steps = append(c.Steps, s)
	}
	return
}

const doesC33 = 13

// do is something else an application does with a handle
func (s stepC33) do(db *gorm.DB, k int) *gorm.DB {
	switch k {
	case 0:
		return db.Table("elsewhere")
	case 1:
		return db.Table("elsewhere AS e")
	case 2:
		return db.Where("id = ?", 1)
	case 3:
		return db.Joins("Owner")
	case 4:
		return db.Session(&gorm.Session{})
	case 5:
		return db.WithContext(context.Background())
	case 6:
		return db.Select("id")
	case 7:
		return db.Preload("Owner")
	case 8:
		return db.Unscoped()
	case 9:
		return db.Limit(1).Order("id")
	case 10:
		db.Statement.Dest = &[]Owner{}
		return db
	case 11:
		return db.Session(&gorm.Session{DryRun: true, SkipHooks: true})
	}
	return db.Debug()
}

// form is a way to name a model
func formC33(typ reflect.Type, form int) any {
	switch form {
	case 0:
		return reflect.New(typ).Interface()
	case 1:
		return reflect.New(typ).Elem().Interface()
	case 2:
		return reflect.New(reflect.SliceOf(typ)).Interface()
	case 3:
		return reflect.MakeSlice(reflect.SliceOf(typ), 0, 0).Interface()
	case 4:
		return reflect.New(reflect.SliceOf(reflect.PointerTo(typ))).Interface()
	case 5:
		return reflect.Zero(reflect.PointerTo(typ)).Interface()
	}
	p := reflect.New(reflect.PointerTo(typ))
	p.Elem().Set(reflect.New(typ))
	return p.Interface()
}

func evalC33(c caseC33, r *Rec) error {
	dbs := map[int]*gorm.DB{} // with the schemas they have seen
	for _, s := range c.Steps {
		cfg := &gorm.Config{}
		switch s.Mode {
		case 1:
			cfg.NamingStrategy = schema.NamingStrategy{NoLowerCase: true}
		case 2:
			cfg.NamingStrategy = namerC13{}
		}
		if dbs[s.Mode] == nil {
			dbs[s.Mode] = openGorm(cfg)
		}
		db := dbs[s.Mode]
		var typ reflect.Type
		var model any
		if v, ok := modelsC33[s.Model]; ok {
			typ = reflect.TypeOf(v)
		} else if s.Model == "own" {
			typ = modelC13(caseC13{Fields: s.Fields})
		} else {
			model = noModels[s.Model]
		}
		tx := db
		if typ != nil {
			model = formC33(typ, s.Form)
		}
		if model != nil {
			tx = tx.Model(model)
		} else {
			tx = tx.Scopes()
		}
		for _, k := range s.Does {
			tx = s.do(tx, k)
		}
		want, bad := (*schema.Schema)(nil), error(nil)
		if typ != nil {
			if want, bad = schema.Parse(reflect.New(typ).Interface(), &sync.Map{}, db.NamingStrategy); bad != nil {
				r.Label("a model gorm refuses")
			}
		}
		if s.Other != "" && model != nil {
			// as in a preload
			other, err := schema.Parse(modelsC33[s.Other], &sync.Map{}, db.NamingStrategy)
			must(err)
			tx.Statement.Schema = other
			r.Label("with another schema")
		}
		table := tx.Statement.Table
		for range 2 {
			var got *schema.Schema
			var err error
			if crash := guard(func() { got, err = gormq.GetOrParseSchema(tx) }); crash != nil {
				return failf("%T crashed: %v", model, crash)
			}
			if typ == nil || bad != nil {
				r.Label("no model")
				r.NonTrivial(true)
				if err == nil {
					return failf("%T is no model, but there is the schema %v", model, got)
				}
				continue
			}
			r.Label("model %s", s.Model)
			r.NonTrivial(len(s.Does) > 0)
			if err != nil || got == nil {
				return failf("%T has no schema: %v", model, err)
			}
			if got.ModelType != want.ModelType || got.Table != want.Table || got.Name != want.Name || !slices.Equal(got.DBNames, want.DBNames) || !slices.Equal(relationsOf(got), relationsOf(want)) {
				return failf("%T has the schema %v %q %v, want %v %q %v", model, got, got.Table, got.DBNames, want, want.Table, want.DBNames)
			}
			if tx.Error != nil || !reflect.DeepEqual(tx.Statement.Model, model) || table != "" && tx.Statement.Table != table {
				return failf("asking for the schema of %T changes the handle: model %T, table %q instead of %q, error %v", model, tx.Statement.Model, tx.Statement.Table, table, tx.Error)
			}
		}
	}
	return nil
}

// relationsOf are the relations of a model, without those gorm notes for its own use
func relationsOf(s *schema.Schema) []string {
	return slices.DeleteFunc(sortedKeys(s.Relationships.Relations), func(name string) bool { return strings.HasPrefix(name, "_") })
}

func sortedKeys[V any](m map[string]V) (s []string) {
	for k := range m {
		s = append(s, k)
	}
	slices.Sort(s)
	return
}

func init() {
	register(Prop{ID: "C33", Quick: 240000, Thor: 1200000,
		Rule: "handles with models in every form, with and without tables, joins, sessions and another schema, and with no model; non-trivial: no model, or a handle with further settings"}, genC33, evalC33)
}
