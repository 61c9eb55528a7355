package main

import (
	"fmt"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"
	"sync"

	pcparser "github.com/pingcap/parser"
	"github.com/pingcap/parser/ast"
	_ "github.com/pingcap/parser/test_driver"
	"pgregory.net/rapid"
)

var mysqlTypeName = map[string]string{
	"binary": "binary", "bit": "bit", "blob8": "tinyblob", "blob16": "blob", "blob24": "mediumblob", "blob32": "longblob",
	"boolean": "bit", "char": "char", "date": "date", "datetime": "datetime", "decimal": "decimal", "double": "double",
	"enum": "enum", "float": "float", "geometry": "geometry", "int8": "tinyint", "int16": "smallint", "int24": "mediumint",
	"int32": "int", "int64": "bigint", "json": "json", "point": "point", "set": "set", "text8": "tinytext", "text16": "text",
	"text24": "mediumtext", "text32": "longtext", "time": "time", "varbinary": "varbinary", "varchar": "varchar", "year": "year",
}

func mysqlHasSize(t string) bool {
	switch t {
	case "bit", "char", "decimal", "double", "float", "int8", "int16", "int24", "int32", "int64", "varchar", "binary", "varbinary":
		return true
	}
	return false
}

func mysqlParse(sql string) ([]ast.StmtNode, error) {
	n, _, err := pcparser.New().Parse(sql, "", "")
	return n, err
}

var safeCache sync.Map

// sqlSafeName: usable as an unquoted MySQL identifier (not a reserved word).
func sqlSafeName(n string) bool {
	if v, ok := safeCache.Load(n); ok {
		return v.(bool)
	}
	_, err := mysqlParse(fmt.Sprintf("CREATE TABLE %s (%s int, x%s int)", n, n, n))
	ok := err == nil && !strings.EqualFold(n, "primary") && !strings.EqualFold(n, "index") && !strings.EqualFold(n, "key") && !strings.EqualFold(n, "unique")
	safeCache.Store(n, ok)
	return ok
}

func mysqlSchemaOpt() SchemaOpt {
	return SchemaOpt{
		Types:     canonicalTypes,
		TableName: NameOpt{Upper: true, Filter: sqlSafeName, Awkward: true},
		ColName:   NameOpt{Upper: true, Filter: sqlSafeName, Awkward: true, Under: true},
		Groups:    []string{"", "a", "b", "A", "ab"},
		TableText: TextAny, ColText: TextAny, ValueText: TextQuotes, StringDefault: TextQuotes, EmptyValue: true,
		Refs: true, Dangling: true, Indices: true, Sizes: true, OddSizes: true, Defaults: true, DefaultFn: true, OnUpdate: true, Meta: true,
		Aliases: true, ClassNames: true, NoPKPct: 15, MultiPKPct: 30, UniquePct: 25,
	}
}

// fixMysqlDomain keeps a schema inside what MySQL itself allows: binary and
// varbinary columns have a length, a plain `bit` is a boolean, and so on.
func fixMysqlDomain(s *Schema) {
	for _, tb := range s.Tables {
		for _, c := range tb.Columns {
			switch canonType(c.Type) {
			case "json", "geometry", "point":
				c.Default = ""
			}
			if isTextType(canonType(c.Type)) || isBlobType(canonType(c.Type)) {
				c.Default = ""
			}
		}
	}
}

func expectVal(v string, typ string) vVal {
	if v == "" {
		return vVal{}
	}
	if f, ok := splitFn(v); ok {
		return vVal{"fn", f}
	}
	switch {
	case isIntType(typ) || isFloatType(typ) || typ == "boolean" || typ == "bit" || typ == "year":
		return vVal{"num", v}
	}
	return vVal{"str", v}
}

func sameVal(want, got vVal) bool {
	if want == got {
		return true
	}
	// 'DEFAULT '5'' means the same as DEFAULT 5, and F() the same as F for the timestamp functions
	if want.Kind == "num" && got.Kind == "str" && want.V == got.V {
		return true
	}
	if want.Kind == "fn" && got.Kind == "word" && want.V == got.V && want.V != "NOW" {
		return true
	}
	return false
}

// expectDDLTable is the reference model of one exported table.
func checkDDLTable(tb *Table, v *vTable, suffix string) error {
	if v.Name != tb.Name {
		return fmt.Errorf("table %q exported as %q", tb.Name, v.Name)
	}
	if len(v.Cols) != len(tb.Columns) {
		return fmt.Errorf("table %q has %d columns, exported %d", tb.Name, len(tb.Columns), len(v.Cols))
	}
	for i, c := range tb.Columns {
		g := v.Cols[i]
		at := fmt.Sprintf("%s.%s", tb.Name, c.Name)
		if g.Name != c.Name {
			return fmt.Errorf("%s: column %d exported as %q", at, i, g.Name)
		}
		if g.Type != mysqlTypeName[c.Type] {
			return fmt.Errorf("%s: type %s exported as %s", at, c.Type, g.Type)
		}
		size, scale := 0, 0
		if mysqlHasSize(c.Type) {
			size, scale = c.Size, c.Scale
		}
		if c.Type == "boolean" {
			size = 1
		}
		if g.Size != size || g.Scale != scale {
			return fmt.Errorf("%s: size (%d,%d) exported as (%d,%d)", at, size, scale, g.Size, g.Scale)
		}
		var vals []string
		if c.Type == "enum" || c.Type == "set" {
			vals = c.Values
		}
		if fmt.Sprintf("%q", vals) != fmt.Sprintf("%q", g.Values) {
			return fmt.Errorf("%s: values %q exported as %q", at, vals, g.Values)
		}
		if g.NotNull != c.NotNull {
			return fmt.Errorf("%s: notnull %v exported as %v", at, c.NotNull, g.NotNull)
		}
		if g.AutoInc != c.AutoInc {
			return fmt.Errorf("%s: autoinc %v exported as %v", at, c.AutoInc, g.AutoInc)
		}
		if w := expectVal(c.Default, c.Type); !sameVal(w, g.Default) {
			return fmt.Errorf("%s: default %q (%v) exported as %v", at, c.Default, w, g.Default)
		}
		if w := expectVal(c.OnUpdate, c.Type); !sameVal(w, g.OnUpdate) {
			return fmt.Errorf("%s: onupdate %q exported as %v", at, c.OnUpdate, g.OnUpdate)
		}
		if g.Comment != c.Desc {
			return fmt.Errorf("%s: description %q exported as comment %q", at, c.Desc, g.Comment)
		}
	}
	var pk []string
	for _, c := range tb.PKs() {
		pk = append(pk, c.Name)
	}
	switch {
	case len(pk) == 0 && len(v.PK) != 0:
		return fmt.Errorf("%s: no primary key, exported %v", tb.Name, v.PK)
	case len(pk) > 0 && (len(v.PK) != 1 || !reflect.DeepEqual(v.PK[0], pk)):
		return fmt.Errorf("%s: primary key %v exported as %v", tb.Name, pk, v.PK)
	}
	var uq []string
	for _, c := range tb.Uniques() {
		uq = append(uq, c.Name)
	}
	switch {
	case len(uq) == 0 && len(v.Unique) != 0:
		return fmt.Errorf("%s: no unique columns, exported %v", tb.Name, v.Unique)
	case len(uq) > 0:
		want := vKey{tb.Name + suffix, uq}
		if len(v.Unique) != 1 || !reflect.DeepEqual(v.Unique[0], want) {
			return fmt.Errorf("%s: unique key %v exported as %v", tb.Name, want, v.Unique)
		}
	}
	var ix []vKey
	for _, x := range tb.Indices {
		ix = append(ix, vKey{x.Name, x.Columns})
	}
	if len(ix)+len(v.Index) > 0 && !reflect.DeepEqual(ix, v.Index) {
		return fmt.Errorf("%s: indices %v exported as %v", tb.Name, ix, v.Index)
	}
	return nil
}

func hasSpatial(s *Schema) bool {
	for _, tb := range s.Tables {
		for _, c := range tb.Columns {
			if t := canonType(c.Type); t == "geometry" || t == "point" {
				return true
			}
		}
	}
	return false
}

// checkDDL compares the exported DDL of a schema with the reference model.
func checkDDL(s *Schema, groups []string, suffix, sql string) error {
	want := s.Normalize()
	if groups != nil {
		want = want.Filter(groups)
	}
	got, err := parseDDL(sql)
	if err != nil {
		return fmt.Errorf("exported DDL does not parse: %v\n%s", err, clip(sql, 1500))
	}
	if !hasSpatial(s) {
		if _, err := mysqlParse(sql); err != nil {
			return fmt.Errorf("exported DDL is rejected by a MySQL parser: %v\n%s", err, clip(sql, 1500))
		}
	}
	if len(got) != len(want.Tables) {
		return fmt.Errorf("%d tables expected, %d exported", len(want.Tables), len(got))
	}
	for i, tb := range want.Tables {
		if err := checkDDLTable(tb, got[i], suffix); err != nil {
			return fmt.Errorf("%v\n%s", err, clip(sql, 1500))
		}
	}
	return nil
}

func splitGroups(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(s, ",")
}

func schemaLabels(o *Outcome, s *Schema) {
	for _, tb := range s.Tables {
		if len(tb.PKs()) > 1 {
			o.label("composite-pk")
		}
		if len(tb.PKs()) == 0 {
			o.label("no-pk")
		}
		if len(tb.Uniques()) > 1 {
			o.label("multi-unique")
		}
		if len(tb.Indices) > 0 {
			o.label("index")
		}
		for _, c := range tb.Columns {
			if c.Ref != nil {
				o.label("ref")
			}
			if c.Default != "" {
				o.label("default")
			}
			if strings.ContainsAny(c.Desc, "'\"\\\n`") {
				o.label("special-text")
			}
			if c.Values != nil {
				o.label("enum-values")
			}
		}
	}
	if len(s.Tables) > 1 {
		o.label("multi-table")
	}
}

// trivialSchema: a case is non-trivial with two or more columns and at least
// one of: key, default, description, reference, index.
func trivialSchema(c *Case, _ *Outcome) bool {
	if c.Schema == nil {
		return false
	}
	cols, feats := 0, 0
	for _, tb := range c.Schema.Tables {
		cols += len(tb.Columns)
		feats += len(tb.Indices)
		for _, cl := range tb.Columns {
			if cl.PK || cl.Unique || cl.Default != "" || cl.Desc != "" || cl.Ref != nil {
				feats++
			}
		}
	}
	return cols < 2 || feats == 0
}

const schemaRule = "random octopus schemas drawn structurally through rapid; a case is non-trivial when it has at least two columns and at least one key, default, description, reference or index; distinct by hash of the whole case"

func drawGroups(t *rapid.T, m map[string]string, s *Schema, pct int) {
	if !chance(t, pct, "useGroups") {
		return
	}
	gs := s.Groups()
	var named []string
	for _, g := range gs {
		if g != "" {
			named = append(named, g)
		}
	}
	named = append(named, "nosuchgroup")
	k := rapid.IntRange(1, min(2, len(named))).Draw(t, "nGroups")
	off := rapid.IntRange(0, len(named)-1).Draw(t, "gOff")
	var sel []string
	for i := 0; i < k; i++ {
		sel = append(sel, named[(off+i)%len(named)])
	}
	m["groups"] = strings.Join(sel, ",")
}

func groupArgs(c *Case) []string {
	if g := c.opt("groups"); g != "" {
		return []string{"--groups", g}
	}
	return nil
}

func genMysqlExport(t *rapid.T) *Case {
	s := genSchema(t, mysqlSchemaOpt())
	if chance(t, 6, "caseTwin") {
		caseTwin(t, s)
	}
	fixMysqlDomain(s)
	c := &Case{Schema: s, Opts: map[string]string{}}
	drawGroups(t, c.Opts, s, 20)
	drawOpt(t, c.Opts, "suffix", 40, "_uq", "_UNIQUE", "Uq")
	return c
}

func checkMysqlExport(e *Env, c *Case) *Outcome {
	o := &Outcome{}
	schemaLabels(o, c.Schema)
	dir, done := e.Scratch()
	defer done()
	in, out := filepath.Join(dir, "in.json"), filepath.Join(dir, "out.sql")
	write(in, c.Schema.JSON())
	args := []string{"export", "mysql", "--input", in, "--output", out}
	args = append(args, groupArgs(c)...)
	if s := c.opt("suffix"); s != "" {
		args = append(args, "--uniqueNameSuffix", s)
	}
	r := e.RunOct(dir, args...)
	if !r.OK() {
		o.failf("export of a valid schema failed: %s", r.Brief())
		return o
	}
	if err := checkDDL(c.Schema, splitGroups(c.opt("groups")), c.opt("suffix"), read(out)); err != nil {
		o.failf("%v", err)
	}
	return o
}

// ---- round trip

func genMysqlRound(t *rapid.T) *Case {
	o := mysqlSchemaOpt()
	o.Types = without(canonicalTypes, "geometry", "point")
	s := genSchema(t, o)
	if chance(t, 6, "caseTwin") {
		caseTwin(t, s)
	}
	fixMysqlDomain(s)
	c := &Case{Schema: s, Opts: map[string]string{}}
	drawOpt(t, c.Opts, "author", 30, "foo", "홍길동")
	drawOpt(t, c.Opts, "version", 30, "1.2.3")
	return c
}

func mysqlRoundModel(s *Schema, author, version string) *Schema {
	r := s.Normalize()
	r.Author, r.Version, r.Name = author, version, ""
	for _, tb := range r.Tables {
		tb.Desc, tb.Group, tb.ClassName = "", "", ""
		for _, c := range tb.Columns {
			c.Ref = nil
			if c.AutoInc {
				c.NotNull = true
			}
			if c.Type != "enum" && c.Type != "set" {
				c.Values = nil
			}
			if c.Default == "fn::NOW" { // the MySQL parser reads NOW() as CURRENT_TIMESTAMP
				c.Default = "fn::CURRENT_TIMESTAMP"
			}
			if c.OnUpdate == "fn::NOW" {
				c.OnUpdate = "fn::CURRENT_TIMESTAMP"
			}
			if c.Type == "bit" && c.Size == 1 {
				c.Type = "boolean" // the import reads bit(1) as boolean
			}
			if !mysqlHasSize(c.Type) {
				c.Size, c.Scale = 0, 0
			}
		}
	}
	return r.Sorted()
}

func diffSchemas(want, got *Schema) string {
	w, g := string(want.JSON()), string(got.JSON())
	if w == g {
		return ""
	}
	wl, gl := strings.Split(w, "\n"), strings.Split(g, "\n")
	for i := 0; i < len(wl) || i < len(gl); i++ {
		a, b := "<end>", "<end>"
		if i < len(wl) {
			a = wl[i]
		}
		if i < len(gl) {
			b = gl[i]
		}
		if a != b {
			lo := i - 6
			if lo < 0 {
				lo = 0
			}
			return fmt.Sprintf("first difference at line %d: want %q, got %q\ncontext:\n%s", i+1, a, b, strings.Join(wl[lo:min(i+2, len(wl))], "\n"))
		}
	}
	return "differ"
}

func checkMysqlRound(e *Env, c *Case) *Outcome {
	o := &Outcome{}
	schemaLabels(o, c.Schema)
	dir, done := e.Scratch()
	defer done()
	in, sql, back := filepath.Join(dir, "in.json"), filepath.Join(dir, "t.sql"), filepath.Join(dir, "back.json")
	write(in, c.Schema.JSON())
	if r := e.RunOct(dir, "export", "mysql", "--input", in, "--output", sql, "--uniqueNameSuffix", "_uq"); !r.OK() {
		o.failf("export of a valid schema failed: %s", r.Brief())
		return o
	}
	args := []string{"import", "mysql", "--input", sql, "--output", back}
	if a := c.opt("author"); a != "" {
		args = append(args, "--author", a)
	}
	if a := c.opt("version"); a != "" {
		args = append(args, "--version", a)
	}
	if r := e.RunOct(dir, args...); !r.OK() {
		o.failf("import of the exported DDL failed: %s\n%s", r.Brief(), clip(read(sql), 1500))
		return o
	}
	got, err := ParseSchema([]byte(read(back)))
	if err != nil {
		o.failf("imported file is not an octopus schema: %v", err)
		return o
	}
	want := mysqlRoundModel(c.Schema, c.opt("author"), c.opt("version"))
	if d := diffSchemas(want, got); d != "" {
		o.failf("export then import changed the schema: %s\nDDL:\n%s", d, clip(read(sql), 1500))
	}
	return o
}

var _ = regexp.MustCompile

func init() {
	register(&Property{
		ID: "C02", Title: "MySQL export is faithful", Quick: 10000, Rule: schemaRule, Trivial: trivialSchema,
		Scenarios: []*Scenario{{Name: "export", Weight: 1, Gen: genMysqlExport, Check: checkMysqlExport}},
	})
	register(&Property{
		ID: "C04", Title: "MySQL round trip", Quick: 8000, Rule: schemaRule, Trivial: trivialSchema,
		Scenarios: []*Scenario{{Name: "roundtrip", Weight: 1, Gen: genMysqlRound, Check: checkMysqlRound}},
	})
}
