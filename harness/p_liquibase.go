package main

import (
	"fmt"
	"math/big"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"gopkg.in/yaml.v2"
	"pgregory.net/rapid"
)

// ---- a model database that change logs are applied to

type lbDef struct{ Kind, V string } // "", lit, bool, fn

type lbCol struct {
	id      int
	Name    string
	Type    string
	AutoInc bool
	NotNull bool
	Def     lbDef
	Remarks string

	Filled    bool   // a NOT NULL constraint was added to it
	NullValue string // and this is what rows without a value get
}

type lbTable struct {
	id      int
	Name    string
	Remarks string
	Cols    []*lbCol
	PK      []string            // sorted
	Uq      map[string][]string // constraint name -> sorted columns
	Inline  []string            // columns with a nameless unique constraint
}

func (t *lbTable) col(n string) *lbCol {
	for _, c := range t.Cols {
		if c.Name == n {
			return c
		}
	}
	return nil
}

type lbDB struct {
	tables map[string]*lbTable
	next   int
	legacy bool // renameColumn loses the not null constraint (before liquibase 4)
}

var lbTypeName = map[string]string{
	"boolean": "boolean", "int8": "tinyint", "int16": "smallint", "int24": "mediumint", "int32": "int", "int64": "bigint",
	"text8": "clob", "text16": "clob", "text24": "clob", "text32": "clob", "blob8": "blob", "blob16": "blob", "blob24": "blob", "blob32": "blob",
}

func lbType(c *Col) string {
	typ := c.Type
	if n, ok := lbTypeName[c.Type]; ok {
		typ = n
	}
	if c.Type == "enum" || c.Type == "set" {
		var v []string
		for _, x := range c.Values {
			v = append(v, "'"+strings.ReplaceAll(x, "'", "''")+"'")
		}
		return typ + "(" + strings.Join(v, ",") + ")"
	}
	switch {
	case c.Size > 0 && c.Scale > 0:
		return fmt.Sprintf("%s(%d,%d)", typ, c.Size, c.Scale)
	case c.Size > 0:
		return fmt.Sprintf("%s(%d)", typ, c.Size)
	}
	return typ
}

func lbDefOf(c *Col) lbDef {
	if c.Default == "" {
		return lbDef{}
	}
	if f, ok := splitFn(c.Default); ok {
		return lbDef{"fn", f}
	}
	if c.Type == "boolean" {
		return lbDef{"bool", strconv.FormatBool(c.Default == "1" || c.Default == "true")}
	}
	return lbDef{"lit", c.Default}
}

func sameNumber(a, b string) bool {
	x, ok1 := new(big.Rat).SetString(a)
	y, ok2 := new(big.Rat).SetString(b)
	return ok1 && ok2 && x.Cmp(y) == 0
}

func sameLbDef(a, b lbDef) bool {
	if a == b {
		return true
	}
	asLit := func(d lbDef) string {
		if d.Kind == "bool" {
			if d.V == "true" {
				return "1"
			}
			return "0"
		}
		if d.V == "true" {
			return "1"
		}
		if d.V == "false" {
			return "0"
		}
		return d.V
	}
	if a.Kind == "" || b.Kind == "" || a.Kind == "fn" || b.Kind == "fn" {
		return false
	}
	return asLit(a) == asLit(b) || sameNumber(asLit(a), asLit(b))
}

// lbIdeal is the database of a schema.
func lbIdeal(s *Schema, suffix string) *lbDB {
	db := &lbDB{tables: map[string]*lbTable{}}
	for _, tb := range s.Tables {
		db.next++
		t := &lbTable{id: db.next, Name: tb.Name, Remarks: tb.Desc, Uq: map[string][]string{}}
		for _, c := range tb.Columns {
			db.next++
			t.Cols = append(t.Cols, &lbCol{id: db.next, Name: c.Name, Type: lbType(c), AutoInc: c.AutoInc, NotNull: c.NotNull, Def: lbDefOf(c), Remarks: c.Desc})
			if c.PK {
				t.PK = append(t.PK, c.Name)
			}
			if c.Unique {
				t.Uq[tb.Name+suffix] = append(t.Uq[tb.Name+suffix], c.Name)
			}
		}
		sort.Strings(t.PK)
		for _, u := range t.Uq {
			sort.Strings(u)
		}
		db.tables[tb.Name] = t
	}
	return db
}

type yColumn struct {
	Name          string `yaml:"name"`
	Type          string `yaml:"type"`
	AutoIncrement bool   `yaml:"autoIncrement"`
	Constraints   *struct {
		PrimaryKey *bool `yaml:"primaryKey"`
		Nullable   *bool `yaml:"nullable"`
		Unique     *bool `yaml:"unique"`
	} `yaml:"constraints"`
	Remarks     string `yaml:"remarks"`
	AfterColumn string `yaml:"afterColumn"`
	yDefault    `yaml:",inline"`
}

type yDefault struct {
	DefaultValue         *string     `yaml:"defaultValue"`
	DefaultValueBoolean  *bool       `yaml:"defaultValueBoolean"`
	DefaultValueNumeric  interface{} `yaml:"defaultValueNumeric"`
	DefaultValueDate     *string     `yaml:"defaultValueDate"`
	DefaultValueComputed *string     `yaml:"defaultValueComputed"`
}

func (y *yDefault) def() (lbDef, error) {
	var r []lbDef
	if y.DefaultValue != nil {
		r = append(r, lbDef{"lit", *y.DefaultValue})
	}
	if y.DefaultValueBoolean != nil {
		r = append(r, lbDef{"bool", strconv.FormatBool(*y.DefaultValueBoolean)})
	}
	switch v := y.DefaultValueNumeric.(type) {
	case nil:
	case int:
		r = append(r, lbDef{"lit", strconv.Itoa(v)})
	case float64:
		r = append(r, lbDef{"lit", strconv.FormatFloat(v, 'f', -1, 64)})
	default:
		return lbDef{}, fmt.Errorf("defaultValueNumeric is %T", v)
	}
	if y.DefaultValueDate != nil {
		r = append(r, lbDef{"lit", *y.DefaultValueDate})
	}
	if y.DefaultValueComputed != nil {
		r = append(r, lbDef{"fn", *y.DefaultValueComputed})
	}
	switch len(r) {
	case 0:
		return lbDef{}, nil
	case 1:
		return r[0], nil
	}
	return lbDef{}, fmt.Errorf("several default values: %v", r)
}

type yChangeSet struct {
	ID            string `yaml:"id"`
	Author        string `yaml:"author"`
	PreConditions *struct {
		OnError string `yaml:"onError"`
		OnFail  string `yaml:"onFail"`
		DBMS    struct {
			Type string `yaml:"type"`
		} `yaml:"dbms"`
	} `yaml:"preConditions"`
	Changes []map[string]interface{} `yaml:"changes"`
}

type changeLog struct {
	Sets []*yChangeSet
}

func parseChangeLog(text string) (*changeLog, error) {
	var root struct {
		Log []map[string]interface{} `yaml:"databaseChangeLog"`
	}
	if err := yaml.UnmarshalStrict([]byte(text), &root); err != nil {
		return nil, err
	}
	l := &changeLog{}
	quoting := false
	ids := map[string]bool{}
	for _, e := range root.Log {
		if len(e) != 1 {
			return nil, fmt.Errorf("entry with %d keys", len(e))
		}
		for k, v := range e {
			switch k {
			case "objectQuotingStrategy":
				if v != "QUOTE_ALL_OBJECTS" {
					return nil, fmt.Errorf("objectQuotingStrategy %v", v)
				}
				quoting = true
			case "changeSet":
				b, err := yaml.Marshal(v)
				if err != nil {
					return nil, err
				}
				cs := &yChangeSet{}
				if err := yaml.UnmarshalStrict(b, cs); err != nil {
					return nil, err
				}
				if cs.ID == "" || ids[cs.ID] {
					return nil, fmt.Errorf("change set id %q is empty or used twice", cs.ID)
				}
				ids[cs.ID] = true
				if len(cs.Changes) == 0 {
					return nil, fmt.Errorf("change set %s has no changes", cs.ID)
				}
				l.Sets = append(l.Sets, cs)
			default:
				return nil, fmt.Errorf("unknown entry %q", k)
			}
		}
	}
	if !quoting {
		return nil, fmt.Errorf("names are not quoted")
	}
	return l, nil
}

func splitCols(s string) []string {
	var r []string
	for _, x := range strings.Split(s, ",") {
		r = append(r, strings.TrimSpace(x))
	}
	sort.Strings(r)
	return r
}

func (db *lbDB) newCol(y *yColumn) (*lbCol, error) {
	if y.Name == "" || y.Type == "" {
		return nil, fmt.Errorf("column without name or type: %+v", *y)
	}
	d, err := y.def()
	if err != nil {
		return nil, fmt.Errorf("column %s: %v", y.Name, err)
	}
	db.next++
	return &lbCol{id: db.next, Name: y.Name, Type: y.Type, AutoInc: y.AutoIncrement, Def: d, Remarks: y.Remarks,
		NotNull: y.Constraints != nil && y.Constraints.Nullable != nil && !*y.Constraints.Nullable}, nil
}

// apply runs every change; touched records the tables named by the changes.
func (db *lbDB) apply(l *changeLog, touched map[string]bool) error {
	for _, cs := range l.Sets {
		for _, ch := range cs.Changes {
			if len(ch) != 1 {
				return fmt.Errorf("change set %s: change with %d keys", cs.ID, len(ch))
			}
			for k, v := range ch {
				b, err := yaml.Marshal(v)
				if err != nil {
					return err
				}
				if err := db.applyOne(k, b, touched); err != nil {
					return fmt.Errorf("change set %s, %s: %v", cs.ID, k, err)
				}
			}
		}
	}
	return nil
}

type yChange struct {
	TableName        string                `yaml:"tableName"`
	ColumnName       string                `yaml:"columnName"`
	ColumnNames      string                `yaml:"columnNames"`
	ConstraintName   string                `yaml:"constraintName"`
	Remarks          string                `yaml:"remarks"`
	NewDataType      string                `yaml:"newDataType"`
	ColumnDataType   string                `yaml:"columnDataType"`
	DefaultNullValue string                `yaml:"defaultNullValue"`
	NewTableName     string                `yaml:"newTableName"`
	OldTableName     string                `yaml:"oldTableName"`
	NewColumnName    string                `yaml:"newColumnName"`
	OldColumnName    string                `yaml:"oldColumnName"`
	Columns          []map[string]*yColumn `yaml:"columns"`
	yDefault         `yaml:",inline"`
}

var lbFields = map[string]string{
	"createTable": "tableName remarks columns", "dropTable": "tableName", "renameTable": "newTableName oldTableName",
	"setTableRemarks": "tableName remarks", "addColumn": "tableName columns", "dropColumn": "tableName columnName",
	"setColumnRemarks": "tableName columnName remarks", "modifyDataType": "tableName columnName newDataType",
	"renameColumn":          "tableName newColumnName oldColumnName columnDataType",
	"addNotNullConstraint":  "tableName columnName columnDataType defaultNullValue",
	"dropNotNullConstraint": "tableName columnName columnDataType",
	"addAutoIncrement":      "tableName columnName columnDataType",
	"addDefaultValue":       "tableName columnName columnDataType defaultValue defaultValueBoolean defaultValueNumeric defaultValueDate defaultValueComputed",
	"dropDefaultValue":      "tableName columnName columnDataType",
	"addPrimaryKey":         "tableName columnNames", "dropPrimaryKey": "tableName",
	"addUniqueConstraint": "tableName columnNames constraintName", "dropUniqueConstraint": "tableName constraintName",
}

func (db *lbDB) applyOne(kind string, body []byte, touched map[string]bool) error {
	fields, ok := lbFields[kind]
	if !ok {
		return fmt.Errorf("unknown change")
	}
	var keys map[string]interface{}
	if err := yaml.UnmarshalStrict(body, &keys); err != nil {
		return err
	}
	allowed := strSet(strings.Fields(fields)...)
	for k := range keys {
		if !allowed[k] {
			return fmt.Errorf("unknown attribute %q", k)
		}
	}
	var y yChange
	if err := yaml.UnmarshalStrict(body, &y); err != nil {
		return err
	}
	if kind == "createTable" {
		touched[y.TableName] = true
		if y.TableName == "" || db.tables[y.TableName] != nil {
			return fmt.Errorf("table %q exists or has no name", y.TableName)
		}
		db.next++
		t := &lbTable{id: db.next, Name: y.TableName, Remarks: y.Remarks, Uq: map[string][]string{}}
		for _, m := range y.Columns {
			yc := m["column"]
			if yc == nil || len(m) != 1 || yc.AfterColumn != "" {
				return fmt.Errorf("bad column entry %v", m)
			}
			c, err := db.newCol(yc)
			if err != nil {
				return err
			}
			if t.col(c.Name) != nil {
				return fmt.Errorf("column %q twice", c.Name)
			}
			t.Cols = append(t.Cols, c)
			if k := yc.Constraints; k != nil {
				if k.PrimaryKey != nil && *k.PrimaryKey {
					t.PK = append(t.PK, c.Name)
				}
				if k.Unique != nil && *k.Unique {
					t.Inline = append(t.Inline, c.Name)
				}
			}
		}
		sort.Strings(t.PK)
		db.tables[t.Name] = t
		return nil
	}
	if kind == "renameTable" {
		touched[y.OldTableName], touched[y.NewTableName] = true, true
		t := db.tables[y.OldTableName]
		if t == nil || db.tables[y.NewTableName] != nil || y.NewTableName == "" {
			return fmt.Errorf("cannot rename %q to %q", y.OldTableName, y.NewTableName)
		}
		delete(db.tables, y.OldTableName)
		t.Name = y.NewTableName
		db.tables[t.Name] = t
		return nil
	}
	touched[y.TableName] = true
	touched[kind+"\x00"+y.TableName+"\x00"+y.ColumnName] = true
	t := db.tables[y.TableName]
	if t == nil {
		return fmt.Errorf("no table %q", y.TableName)
	}
	needCol := func(n string) (*lbCol, error) {
		if c := t.col(n); c != nil {
			return c, nil
		}
		return nil, fmt.Errorf("no column %q in table %q", n, t.Name)
	}
	replace := func(xs []string, old, new string) []string {
		var r []string
		for _, x := range xs {
			if x == old {
				x = new
			}
			if x != "" {
				r = append(r, x)
			}
		}
		sort.Strings(r)
		return r
	}
	switch kind {
	case "dropTable":
		delete(db.tables, t.Name)
		return nil
	case "setTableRemarks":
		t.Remarks = y.Remarks
		return nil
	case "addColumn":
		if len(y.Columns) == 0 {
			return fmt.Errorf("no columns")
		}
		for _, m := range y.Columns {
			yc := m["column"]
			if yc == nil || len(m) != 1 {
				return fmt.Errorf("bad column entry %v", m)
			}
			c, err := db.newCol(yc)
			if err != nil {
				return err
			}
			if t.col(c.Name) != nil {
				return fmt.Errorf("column %q exists", c.Name)
			}
			at := len(t.Cols)
			if yc.AfterColumn != "" {
				at = -1
				for i, x := range t.Cols {
					if x.Name == yc.AfterColumn {
						at = i + 1
					}
				}
				if at < 0 {
					return fmt.Errorf("no column %q to add %q after", yc.AfterColumn, c.Name)
				}
			}
			cols := append([]*lbCol{}, t.Cols[:at]...)
			cols = append(cols, c)
			t.Cols = append(cols, t.Cols[at:]...)
			if k := yc.Constraints; k != nil {
				if k.PrimaryKey != nil && *k.PrimaryKey {
					t.PK = append(t.PK, c.Name)
				}
				if k.Unique != nil && *k.Unique {
					t.Inline = append(t.Inline, c.Name)
				}
			}
		}
		return nil
	case "renameColumn":
		c, err := needCol(y.OldColumnName)
		if err != nil {
			return err
		}
		if t.col(y.NewColumnName) != nil || y.NewColumnName == "" {
			return fmt.Errorf("column %q exists", y.NewColumnName)
		}
		if y.ColumnDataType != c.Type {
			return fmt.Errorf("column %q has type %s, not %s", c.Name, c.Type, y.ColumnDataType)
		}
		t.PK = replace(t.PK, c.Name, y.NewColumnName)
		for n := range t.Uq {
			t.Uq[n] = replace(t.Uq[n], c.Name, y.NewColumnName)
		}
		c.Name = y.NewColumnName
		if db.legacy {
			c.NotNull = false
		}
		return nil
	case "addPrimaryKey":
		if len(t.PK) > 0 {
			return fmt.Errorf("table %q already has primary key %v", t.Name, t.PK)
		}
		t.PK = splitCols(y.ColumnNames)
		for _, n := range t.PK {
			if _, err := needCol(n); err != nil {
				return err
			}
		}
		return nil
	case "dropPrimaryKey":
		t.PK = nil
		return nil
	case "addUniqueConstraint":
		if t.Uq[y.ConstraintName] != nil || y.ConstraintName == "" {
			return fmt.Errorf("unique constraint %q exists or has no name", y.ConstraintName)
		}
		cols := splitCols(y.ColumnNames)
		for _, n := range cols {
			if _, err := needCol(n); err != nil {
				return err
			}
		}
		t.Uq[y.ConstraintName] = cols
		return nil
	case "dropUniqueConstraint":
		if t.Uq[y.ConstraintName] == nil {
			return fmt.Errorf("table %q has no unique constraint %q", t.Name, y.ConstraintName)
		}
		delete(t.Uq, y.ConstraintName)
		return nil
	}
	c, err := needCol(y.ColumnName)
	if err != nil {
		return err
	}
	switch kind {
	case "dropColumn":
		var cols []*lbCol
		for _, x := range t.Cols {
			if x != c {
				cols = append(cols, x)
			}
		}
		t.Cols = cols
		t.PK = replace(t.PK, c.Name, "")
		for _, n := range sortedKeys(t.Uq) {
			for _, x := range t.Uq[n] {
				if x == c.Name {
					return fmt.Errorf("column %q is dropped while unique constraint %q stands", c.Name, n)
				}
			}
		}
	case "setColumnRemarks":
		c.Remarks = y.Remarks
	case "modifyDataType":
		c.Type = y.NewDataType
		return nil
	case "addNotNullConstraint":
		c.NotNull = true
		if strings.HasPrefix(y.DefaultNullValue, "fn::") {
			return fmt.Errorf("default null value %q", y.DefaultNullValue)
		}
		c.Filled, c.NullValue = true, y.DefaultNullValue
	case "dropNotNullConstraint":
		c.NotNull = false
	case "addAutoIncrement":
		c.AutoInc = true
	case "addDefaultValue":
		d, err := y.def()
		if err != nil {
			return err
		}
		if d.Kind == "" {
			return fmt.Errorf("no default value")
		}
		c.Def = d
	case "dropDefaultValue":
		c.Def = lbDef{}
	}
	if y.ColumnDataType != "" && y.ColumnDataType != c.Type {
		return fmt.Errorf("column %s.%s has type %s, not %s", t.Name, c.Name, c.Type, y.ColumnDataType)
	}
	return nil
}

// compareDB reports the first difference.
func compareDB(want, got *lbDB, order func(table string) bool, remarks, create bool) error {
	for _, n := range sortedKeys(got.tables) {
		if want.tables[n] == nil {
			return fmt.Errorf("table %q should not exist", n)
		}
	}
	for _, n := range sortedKeys(want.tables) {
		w, g := want.tables[n], got.tables[n]
		if g == nil {
			return fmt.Errorf("table %q is missing", n)
		}
		var wn, gn []string
		for _, c := range w.Cols {
			wn = append(wn, c.Name)
		}
		for _, c := range g.Cols {
			gn = append(gn, c.Name)
		}
		if !order(n) {
			sort.Strings(wn)
			sort.Strings(gn)
		}
		if !reflect.DeepEqual(wn, gn) {
			return fmt.Errorf("table %q: columns %v, expected %v", n, gn, wn)
		}
		if remarks && w.Remarks != g.Remarks {
			return fmt.Errorf("table %q: remarks %q, expected %q", n, g.Remarks, w.Remarks)
		}
		if strings.Join(w.PK, ",") != strings.Join(g.PK, ",") {
			return fmt.Errorf("table %q: primary key %v, expected %v", n, g.PK, w.PK)
		}
		if len(w.Uq) != len(g.Uq) || len(w.Uq) > 0 && !reflect.DeepEqual(w.Uq, g.Uq) {
			return fmt.Errorf("table %q: unique constraints %v, expected %v", n, g.Uq, w.Uq)
		}
		if len(g.Inline) > 0 {
			ok := false
			for _, u := range w.Uq {
				ok = ok || reflect.DeepEqual(u, g.Inline)
			}
			if !ok {
				return fmt.Errorf("table %q: unique columns %v, expected %v", n, g.Inline, w.Uq)
			}
		}
		pk := strSet(w.PK...)
		for _, wc := range w.Cols {
			gc := g.col(wc.Name)
			at := n + "." + wc.Name
			switch {
			case wc.Type != gc.Type:
				return fmt.Errorf("%s: type %s, expected %s", at, gc.Type, wc.Type)
			case wc.AutoInc != gc.AutoInc:
				return fmt.Errorf("%s: auto increment %v, expected %v", at, gc.AutoInc, wc.AutoInc)
			case create && wc.NotNull && !gc.NotNull && len(w.PK) > 1:
				return fmt.Errorf("%s: made nullable (its primary key is a change set of its own)", at)
			case wc.NotNull != gc.NotNull && !pk[wc.Name]:
				return fmt.Errorf("%s: not null %v, expected %v", at, gc.NotNull, wc.NotNull)
			case !sameLbDef(wc.Def, gc.Def):
				return fmt.Errorf("%s: default %v, expected %v", at, gc.Def, wc.Def)
			case remarks && wc.Remarks != gc.Remarks:
				return fmt.Errorf("%s: remarks %q, expected %q", at, gc.Remarks, wc.Remarks)
			}
		}
	}
	return nil
}

// ---- C09

func lbSchemaOpt() SchemaOpt {
	o := mysqlSchemaOpt()
	o.TableName = NameOpt{Upper: true, Awkward: true, Under: true}
	o.ColName = NameOpt{Upper: true, Awkward: true, Under: true}
	o.StringDefault = TextQuotes
	o.MaxTables = 5
	o.OddSizes = true
	return o
}

func genLbCreate(t *rapid.T) *Case {
	s := genSchema(t, lbSchemaOpt())
	if chance(t, 6, "caseTwin") {
		caseTwin(t, s)
	}
	c := &Case{Schema: s, Opts: map[string]string{}}
	drawGroups(t, c.Opts, s, 25)
	drawOpt(t, c.Opts, "suffix", 50, "_uq", "_UNIQUE")
	drawOpt(t, c.Opts, "comments", 50, "1")
	return c
}

func lbArgs(c *Case) []string {
	args := groupArgs(c)
	if s := c.opt("suffix"); s != "" {
		args = append(args, "--uniqueNameSuffix", s)
	}
	if c.flag("comments") {
		args = append(args, "--comments")
	}
	return args
}

func checkLbCreate(e *Env, c *Case) *Outcome {
	o := &Outcome{}
	schemaLabels(o, c.Schema)
	dir, done := e.Scratch()
	defer done()
	in, out := filepath.Join(dir, "in.json"), filepath.Join(dir, "out.yaml")
	write(in, c.Schema.JSON())
	r := e.RunOct(dir, append([]string{"generate", "liquibase", "--input", in, "--output", out}, lbArgs(c)...)...)
	if !r.OK() {
		o.failf("generation from a valid schema failed: %s", r.Brief())
		return o
	}
	text := read(out)
	l, err := parseChangeLog(text)
	if err != nil {
		o.failf("the change log is not valid: %v\n%s", err, clip(text, 1500))
		return o
	}
	want := c.Schema.Normalize()
	if g := splitGroups(c.opt("groups")); g != nil {
		want = want.Filter(g)
	}
	for _, cs := range l.Sets {
		if cs.Author != c.Schema.Author {
			o.failf("change set %s has author %q, not %q", cs.ID, cs.Author, c.Schema.Author)
		}
	}
	db := &lbDB{tables: map[string]*lbTable{}}
	if err := db.apply(l, map[string]bool{}); err != nil {
		o.failf("the change log cannot be applied to an empty database: %v\n%s", err, clip(text, 1500))
		return o
	}
	ideal := lbIdeal(want, c.opt("suffix"))
	if !c.flag("comments") {
		for _, t := range ideal.tables {
			for _, col := range t.Cols {
				col.Remarks = ""
			}
		}
	}
	if err := compareDB(ideal, db, func(string) bool { return true }, true, true); err != nil {
		o.failf("the change log creates another schema: %v\n%s", err, clip(text, 1500))
	}
	return o
}

// ---- C10

func genLbDiff(t *rapid.T) *Case {
	so := lbSchemaOpt()
	so.Aliases = false
	s := genSchema(t, so)
	to, log := editSchema(t, s, EditOpt{SO: so, NoAutoIncOf: true, MaxEdits: 8})
	c := &Case{Schema: s, Schema2: to, Opts: map[string]string{"order": "1"}, List: log}
	if chance(t, 25, "shuffleTo") {
		to.Tables = rapid.Permutation(to.Tables).Draw(t, "perm")
	}
	if chance(t, 20, "useGroups") {
		c.Opts["groups"] = pick(t, []string{"a", "b", "a,b", "nosuchgroup"}, "groups")
	}
	drawOpt(t, c.Opts, "suffix", 50, "_uq", "_UNIQUE")
	drawOpt(t, c.Opts, "comments", 50, "1")
	drawOpt(t, c.Opts, "author", 40, "someone else")
	noAutoIncDrop(s, to)
	return c
}

// noAutoIncDrop: liquibase has no change that takes auto-increment off a column.
func noAutoIncDrop(from, to *Schema) {
	for _, tb := range from.Tables {
		if x := to.Table(tb.Name); x != nil {
			for _, c := range tb.Columns {
				if y := x.Col(c.Name); y != nil && c.AutoInc && !y.AutoInc {
					c.AutoInc = false
				}
			}
		}
	}
}

// genLbPair: two unrelated schemas over a small pool of names.
func genLbPair(t *rapid.T) *Case {
	so := lbSchemaOpt()
	so.Aliases = false
	so.TableName = NameOpt{Pool: []string{"user", "item", "tag", "city"}}
	so.ColName = NameOpt{Pool: []string{"id", "name", "user_id", "x", "data", "note", "status"}}
	so.MaxTables, so.MaxCols = 3, 4
	a, b := genSchema(t, so), genSchema(t, so)
	c := &Case{Schema: a, Schema2: b, Opts: map[string]string{}}
	if chance(t, 20, "useGroups") {
		c.Opts["groups"] = pick(t, []string{"a", "b", "a,b"}, "groups")
	}
	drawOpt(t, c.Opts, "suffix", 50, "_uq")
	drawOpt(t, c.Opts, "comments", 50, "1")
	noAutoIncDrop(a, b)
	return c
}

// expectedAfter: what the database should be when only the tables of the
// selected groups are compared.
func expectedAfter(from, to *Schema, groups []string) *Schema {
	if groups == nil {
		return to
	}
	sel := strSet(groups...)
	r := &Schema{}
	for _, tb := range from.Tables {
		x := to.Table(tb.Name)
		switch {
		case x == nil && sel[tb.Group]: // removed or renamed
		case x == nil || !sel[x.Group]:
			r.Tables = append(r.Tables, tb)
		}
	}
	for _, tb := range to.Tables {
		if sel[tb.Group] {
			r.Tables = append(r.Tables, tb)
		}
	}
	return r
}

func checkLbDiff(e *Env, c *Case) *Outcome {
	o := &Outcome{}
	for _, l := range c.List {
		o.label("edit-" + strings.Fields(l)[0])
	}
	dir, done := e.Scratch()
	defer done()
	f1, f2, out := filepath.Join(dir, "from.json"), filepath.Join(dir, "to.json"), filepath.Join(dir, "out.yaml")
	write(f1, c.Schema.JSON())
	write(f2, c.Schema2.JSON())
	args := append([]string{"diff", "liquibase", "--from", f1, "--to", f2, "--output", out}, lbArgs(c)...)
	author := c.Schema2.Author
	if a := c.opt("author"); a != "" {
		author = a
		args = append(args, "--author", a)
	}
	r := e.RunOct(dir, args...)
	if !r.OK() {
		o.failf("diff of valid schemas failed: %s", r.Brief())
		return o
	}
	text := read(out)
	e.RunOct(dir, args...)
	if again := read(out); again != text {
		o.failf("two runs of the same diff differ:\n%s\n--- and\n%s", clip(text, 1500), clip(again, 1500))
		return o
	}
	l, err := parseChangeLog(text)
	if err != nil {
		o.failf("the change log is not valid: %v\n%s", err, clip(text, 2000))
		return o
	}
	for _, cs := range l.Sets {
		if cs.Author != author {
			o.failf("change set %s has author %q, not %q", cs.ID, cs.Author, author)
		}
	}
	from, to := c.Schema.Normalize(), c.Schema2.Normalize()
	groups := splitGroups(c.opt("groups"))
	suffix := c.opt("suffix")
	final := expectedAfter(from, to, groups)
	if len(l.Sets) > 0 {
		o.label("changes")
	}
	for _, legacy := range []bool{false, true} {
		db := lbIdeal(from, suffix)
		db.legacy = legacy
		touched := map[string]bool{}
		if err := db.apply(l, touched); err != nil {
			o.failf("the diff cannot be applied to the old schema: %v\n%s", err, clip(text, 2000))
			return o
		}
		// what counts as a rename (which keeps its place) can be ambiguous
		order := func(table string) bool {
			x, y, now := from.Table(table), final.Table(table), db.tables[table]
			if !c.flag("order") || x == nil || y == nil {
				return x == nil
			}
			ids := map[int]string{}
			for _, col := range lbIdeal(from, suffix).tables[table].Cols {
				ids[col.id] = col.Name
			}
			for _, col := range now.Cols {
				if old, ok := ids[col.id]; ok && old != col.Name {
					return false
				}
			}
			return true
		}
		if err := compareDB(lbIdeal(final, suffix), db, order, c.flag("comments"), false); err != nil {
			o.failf("the diff does not lead to the new schema: %v\n%s", err, clip(text, 2000))
			return o
		}
		// what did not change is left alone, and nothing that stays is dropped and made again
		old := lbIdeal(from, suffix)
		for _, tb := range final.Tables {
			x := from.Table(tb.Name)
			if x == nil {
				continue
			}
			a, b := *x, *tb
			a.Group, b.Group, a.ClassName, b.ClassName, a.Indices, b.Indices = "", "", "", "", nil, nil
			if reflect.DeepEqual((&Schema{Tables: []*Table{&a}}).JSON(), (&Schema{Tables: []*Table{&b}}).JSON()) && touched[tb.Name] {
				o.failf("table %q did not change but is in the diff\n%s", tb.Name, clip(text, 2000))
			}
			if db.tables[tb.Name].id != old.tables[tb.Name].id {
				o.failf("table %q is dropped and made again\n%s", tb.Name, clip(text, 2000))
			}
			for _, col := range tb.Columns {
				if oc := old.tables[tb.Name].col(col.Name); oc != nil && oc.id != db.tables[tb.Name].col(col.Name).id {
					o.failf("column %s.%s is dropped and made again\n%s", tb.Name, col.Name, clip(text, 2000))
				}
			}
		}
		// a column that must have a value gets its default where it had none
		for _, tb := range final.Tables {
			for _, col := range tb.Columns {
				d := col.Default
				if strings.HasPrefix(d, "fn::") {
					d = ""
				}
				if x := db.tables[tb.Name].col(col.Name); x.Filled && x.NullValue != d {
					o.failf("rows without a value in %s.%s get %q, the default is %q\n%s", tb.Name, col.Name, x.NullValue, d, clip(text, 2000))
				}
			}
		}
		if err := checkNeeded(from, final, touched, c.flag("comments")); err != nil {
			o.failf("%v\n%s", err, clip(text, 2000))
		}
		if err := checkKept(from, final, old, db, groups, c.flag("comments")); err != nil {
			o.failf("%v\n%s", err, clip(text, 2000))
		}
	}
	return o
}

// checkNeeded: no attribute is set that did not change (a new type may need the
// default and the remarks again).
func checkNeeded(from, final *Schema, touched map[string]bool, comments bool) error {
	for _, tb := range final.Tables {
		x := from.Table(tb.Name)
		if touched["setTableRemarks\x00"+tb.Name+"\x00"] && (!comments || x != nil && x.Desc == tb.Desc) {
			return fmt.Errorf("the remarks of table %s are set for no reason", tb.Name)
		}
		if x == nil {
			continue
		}
		for _, c := range tb.Columns {
			y := x.Col(c.Name)
			if y == nil {
				continue
			}
			did := func(kind string) bool { return touched[kind+"\x00"+tb.Name+"\x00"+c.Name] }
			sameType := canonType(y.Type) == canonType(c.Type) && y.Size == c.Size && y.Scale == c.Scale && strings.Join(y.Values, "\x00") == strings.Join(c.Values, "\x00")
			switch {
			case sameType && did("modifyDataType"):
				return fmt.Errorf("the type of %s.%s is set for no reason", tb.Name, c.Name)
			case (!comments || sameType && y.Desc == c.Desc) && did("setColumnRemarks"):
				return fmt.Errorf("the remarks of %s.%s are set for no reason", tb.Name, c.Name)
			case sameType && y.Default == c.Default && y.AutoInc == c.AutoInc && (did("addDefaultValue") || did("dropDefaultValue")):
				return fmt.Errorf("the default of %s.%s is set for no reason", tb.Name, c.Name)
			case sameType && y.AutoInc == c.AutoInc && y.PK == c.PK && did("addAutoIncrement"):
				return fmt.Errorf("the auto-increment of %s.%s is set for no reason", tb.Name, c.Name)
			}
		}
	}
	return nil
}

// checkKept: renamed tables and columns keep their identity.
func checkKept(from, final *Schema, old, db *lbDB, groups []string, desc bool) error {
	var removed, added []string
	for _, tb := range from.Tables {
		if final.Table(tb.Name) == nil {
			removed = append(removed, tb.Name)
		}
	}
	for _, tb := range final.Tables {
		if from.Table(tb.Name) == nil {
			added = append(added, tb.Name)
		}
	}
	var ren [][2]string
	for _, r := range removed {
		for _, a := range added {
			if old.tables[r].id == db.tables[a].id {
				ren = append(ren, [2]string{r, a})
			}
		}
	}
	if err := matchRenames(removed, added, ren, func(a, b string) bool { return sameCols(from.Table(a), final.Table(b)) }); err != nil {
		return fmt.Errorf("tables: %v", err)
	}
	for _, tb := range final.Tables {
		x := from.Table(tb.Name)
		if x == nil {
			continue
		}
		removed, added, ren = nil, nil, nil
		for _, c := range x.Columns {
			if tb.Col(c.Name) == nil {
				removed = append(removed, c.Name)
			}
		}
		for _, c := range tb.Columns {
			if x.Col(c.Name) == nil {
				added = append(added, c.Name)
			}
		}
		for _, r := range removed {
			for _, a := range added {
				if old.tables[tb.Name].col(r).id == db.tables[tb.Name].col(a).id {
					ren = append(ren, [2]string{r, a})
				}
			}
		}
		if err := matchRenames(removed, added, ren, func(a, b string) bool { return renamedCol(x.Col(a), tb.Col(b), desc) }); err != nil {
			return fmt.Errorf("columns of %s: %v", tb.Name, err)
		}
	}
	return nil
}

func genLbSelf(t *rapid.T) *Case {
	so := lbSchemaOpt()
	s := genSchema(t, so)
	to := s.Clone()
	to.Tables = rapid.Permutation(to.Tables).Draw(t, "perm")
	c := &Case{Schema: s, Schema2: to, Opts: map[string]string{}}
	drawOpt(t, c.Opts, "comments", 50, "1")
	drawOpt(t, c.Opts, "suffix", 50, "_uq")
	drawGroups(t, c.Opts, s, 20)
	return c
}

func checkLbSelf(e *Env, c *Case) *Outcome {
	o := checkLbDiff(e, c)
	for _, l := range o.Labels {
		if l == "changes" {
			o.failf("the diff of a schema with itself is not empty")
		}
	}
	return o
}

const diffRule = "pairs of schemas: a random schema and the result of up to eight random edits to it, two unrelated schemas over a small pool of names, or a schema and itself with its tables permuted; a case is non-trivial when the two files differ or the schema has two or more columns with a key, default, description, reference or index; distinct by hash of the whole case"

func init() {
	register(&Property{
		ID: "C09", Title: "Liquibase change log", Quick: 8000, Rule: schemaRule, Trivial: trivialSchema,
		Scenarios: []*Scenario{{Name: "create", Weight: 1, Gen: genLbCreate, Check: checkLbCreate}},
	})
	register(&Property{
		ID: "C10", Title: "Liquibase diff", Quick: 8000, Rule: diffRule, Trivial: trivialSchema,
		Scenarios: []*Scenario{
			{Name: "edits", Weight: 6, Gen: genLbDiff, Check: checkLbDiff},
			{Name: "pair", Weight: 3, Gen: genLbPair, Check: checkLbDiff},
			{Name: "self", Weight: 1, Gen: genLbSelf, Check: checkLbSelf},
		},
	})
}
