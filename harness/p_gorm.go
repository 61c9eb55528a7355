package main

// C12: GORM source.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

var numbered = regexp.MustCompile(`_[0-9]`)

func gormSchemaOpt() SchemaOpt {
	o := mysqlSchemaOpt()
	// a column like line_1 gets a field name that GORM maps to line1 (known finding)
	o.TableName = NameOpt{Upper: true, Awkward: true, Under: true}
	o.ColName = NameOpt{Upper: true, Awkward: true, Under: true, Filter: func(s string) bool { return !numbered.MatchString(s) }}
	o.TableKey, o.ColKey = nameKey, nameKey
	o.MaxTables = 5
	o.OddSizes = true
	o.TableText, o.ColText = TextNone, TextNone
	return o
}

// classNames: the class name model shared by the code generators.
func className(tb *Table, prefix, removePrefix string, conv func(string) string) string {
	if tb.ClassName != "" {
		return tb.ClassName
	}
	n := tb.Name
	for _, p := range strings.Split(removePrefix, ",") {
		n = strings.TrimPrefix(n, p)
	}
	return groupPrefix(prefix, tb.Group) + conv(n)
}

// groupPrefix: "P" for every group, or "g1:P1,g2:P2".
func groupPrefix(spec, group string) string {
	if !strings.Contains(spec, ":") {
		return spec
	}
	r := ""
	for _, e := range strings.Split(spec, ",") {
		kv := strings.SplitN(e, ":", 2)
		if kv[0] == group {
			r = kv[1]
		}
	}
	return r
}

func drawPrefixes(t *rapid.T, c *Case) {
	drawOpt(t, c.Opts, "prefix", 35, "G", "a:A,b:Bee", "a:Q", "b:Zed,:Empty", "a:Lo,A:Up", "ab:Ab,a:One")
	if chance(t, 35, "useRemove") {
		var ps []string
		for i := rapid.IntRange(1, 2).Draw(t, "nRemove"); i > 0; i-- {
			n := pick(t, c.Schema.Tables, "removeFrom").Name
			k := rapid.IntRange(1, len(n)).Draw(t, "removeLen")
			if j := strings.Index(n, "_"); j > 0 && rapid.Bool().Draw(t, "removeWord") {
				k = j + 1
			}
			ps = append(ps, n[:k])
		}
		c.Opts["removePrefix"] = strings.Join(ps, ",")
	}
}

// fixClassNames gives tables with empty, odd or equal class names explicit ones.
func fixClassNames(c *Case, conv func(string) string) {
	seen := map[string]bool{}
	for i, tb := range c.Schema.Tables {
		n := className(tb, c.opt("prefix"), c.opt("removePrefix"), conv)
		if n == "" || n[0] >= '0' && n[0] <= '9' || seen[nameKey(n)] {
			tb.ClassName = "Fixed" + alpha(i)
			n = tb.ClassName
		}
		seen[nameKey(n)] = true
	}
}

func upperCamel(s string) string { return camel(s, true) }
func lowerCamel(s string) string { return camel(s, false) }

func genGorm(t *rapid.T) *Case {
	so := gormSchemaOpt()
	if chance(t, 30, "embeddable") {
		so.ColName = NameOpt{Pool: []string{"id", "created_at", "updated_at", "deleted_at", "name", "note", "user_id", "x", "is_active", "table_name"}}
		so.MaxCols, so.MinCols = 9, 4
	}
	s := genSchema(t, so)
	c := &Case{Schema: s, Opts: map[string]string{}}
	drawOpt(t, c.Opts, "package", 50, "model", "main", "entity_x")
	drawOpt(t, c.Opts, "pointer", 40, "1")
	drawOpt(t, c.Opts, "suffix", 40, "_uq", "_UNIQUE")
	drawPrefixes(t, c)
	drawGroups(t, c.Opts, s, 25)
	switch rapid.IntRange(0, 9).Draw(t, "embedKind") {
	case 7:
		c.Opts["embed"] = "gorm.Model:"
	case 8, 9:
		tb := pick(t, s.Tables, "embedTable")
		var cols []string
		for _, x := range tb.Columns {
			if chance(t, 50, "embedCol") {
				cols = append(cols, x.Name)
			}
		}
		if len(cols) > 0 {
			c.Opts["embed"] = pick(t, []string{"AuditMixin", "ZzBase", "gorm.Model"}, "embedName") + ":" + strings.Join(cols, ",")
		}
	}
	fixClassNames(c, upperCamel)
	if chance(t, 20, "manyRefs") {
		to := pick(t, s.Tables, "manyTo")
		for _, tb := range s.Tables {
			for _, x := range tb.Columns {
				if chance(t, 40, "manyRef") {
					x.Ref = &Ref{Table: to.Name, Column: to.Columns[0].Name, Relationship: pick(t, []string{"n:1", "1:1", "1:n"}, "manyRel")}
				}
			}
		}
	}
	// references that do not give compilable Go are known findings
	for i, tb := range s.Tables {
		taken := map[string]bool{}
		for _, x := range tb.Columns {
			taken[nameKey(x.Name)] = true
		}
		for _, x := range tb.Columns {
			if x.Ref == nil {
				continue
			}
			at := -1
			for j, y := range s.Tables {
				if y.Name == x.Ref.Table {
					at = j
				}
			}
			if at < 0 {
				continue
			}
			n := nameKey(className(s.Tables[at], c.opt("prefix"), c.opt("removePrefix"), upperCamel))
			if taken[n] {
				n += nameKey(x.Name)
			}
			if taken[n] || at >= i && !c.flag("pointer") && x.Ref.Relationship != "1:n" {
				x.Ref = nil
				continue
			}
			taken[n] = true
		}
	}
	return c
}

func goFieldType(c *Col) string {
	null := !c.NotNull
	or := func(a, b string) string {
		if null {
			return a
		}
		return b
	}
	switch c.Type {
	case "char", "varchar", "text8", "text16", "text24", "text32":
		return or("null.String", "string")
	case "boolean":
		return or("null.Bool", "bool")
	case "int8":
		return or("null.Int", "int8")
	case "int16":
		return or("null.Int", "int16")
	case "int24", "int32":
		return or("null.Int", "int32")
	case "int64":
		return or("null.Int", "int64")
	case "decimal":
		return or("decimal.NullDecimal", "decimal.Decimal")
	case "float":
		return or("null.Float", "float32")
	case "double":
		return or("null.Float", "float64")
	case "datetime", "date", "time":
		return or("null.Time", "time.Time")
	case "blob8", "blob16", "blob24", "blob32":
		return "[]byte"
	case "bit":
		return or("*byte", "byte")
	case "enum":
		return "string"
	}
	return "interface{}"
}

func goFieldName(col string) string {
	n := camel(col, true)
	if strings.HasSuffix(n, "Id") {
		n = n[:len(n)-2] + "ID"
	}
	if n != "" && n[0] >= '0' && n[0] <= '9' {
		n = "_" + n
	}
	if n == "TableName" { // the method has this name
		n = "TableName_"
	}
	return n
}

type goField struct{ name, typ, tag string }

func typeText(fset *token.FileSet, e ast.Expr) string { return types.ExprString(e) }

// stubImporter provides the packages generated code may use.
type stubImporter struct{}

var stubSources = map[string]string{
	"time":                          "package time\ntype Time struct{}\n",
	"gopkg.in/guregu/null.v4":       "package null\ntype String struct{}\ntype Bool struct{}\ntype Int struct{}\ntype Float struct{}\ntype Time struct{}\n",
	"github.com/shopspring/decimal": "package decimal\ntype Decimal struct{}\ntype NullDecimal struct{}\n",
	"github.com/jinzhu/gorm":        "package gorm\ntype Model struct{}\n",
}

func (stubImporter) Import(path string) (*types.Package, error) {
	src, ok := stubSources[path]
	if !ok {
		return nil, fmt.Errorf("unknown package %q", path)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, 0)
	if err != nil {
		return nil, err
	}
	return (&types.Config{}).Check(path, fset, []*ast.File{f}, nil)
}

func gormEmbeds(c *Case) map[string][]string {
	m := map[string][]string{"gorm.Model": {"id", "created_at", "updated_at", "deleted_at"}}
	if e := c.opt("embed"); e != "" {
		kv := strings.SplitN(e, ":", 2)
		if kv[1] == "" {
			delete(m, kv[0])
		} else {
			m[kv[0]] = strings.Split(kv[1], ",")
		}
	}
	return m
}

func checkGorm(e *Env, c *Case) *Outcome {
	o := &Outcome{}
	schemaLabels(o, c.Schema)
	dir, done := e.Scratch()
	defer done()
	in, out := filepath.Join(dir, "in.json"), filepath.Join(dir, "out.go")
	write(in, c.Schema.JSON())
	args := append([]string{"generate", "gorm", "--input", in, "--output", out}, groupArgs(c)...)
	for k, f := range map[string]string{"package": "--package", "suffix": "--uniqueNameSuffix", "prefix": "--prefix", "removePrefix": "--removePrefix", "embed": "--embed"} {
		if v := c.opt(k); v != "" {
			args = append(args, f, v)
			o.label("opt-" + k)
		}
	}
	if c.flag("pointer") {
		args = append(args, "--pointerAssociation")
	}
	r := e.RunOct(dir, args...)
	if !r.OK() {
		o.failf("generation from a valid schema failed: %s", r.Brief())
		return o
	}
	text := read(out)
	if err := checkGormText(o, c, text); err != nil {
		o.failf("%v\n%s", err, clip(text, 2500))
	}
	return o
}

func checkGormText(o *Outcome, c *Case, text string) error {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "out.go", text, 0)
	if err != nil {
		return fmt.Errorf("the output is not Go: %v", err)
	}
	pkg := c.opt("package")
	if pkg == "" {
		pkg = "main"
	}
	if f.Name.Name != pkg {
		return fmt.Errorf("package %s, expected %s", f.Name.Name, pkg)
	}
	full := c.Schema.Normalize()
	sel := full
	if g := splitGroups(c.opt("groups")); g != nil {
		sel = full.Filter(g)
	}
	name := func(tb *Table) string {
		return className(tb, c.opt("prefix"), c.opt("removePrefix"), upperCamel)
	}

	// compile, with stand-ins for what lives elsewhere
	extra := "package " + pkg + "\n"
	for _, tb := range full.Tables {
		if sel.Table(tb.Name) == nil {
			extra += "type " + name(tb) + " struct{}\n"
		}
	}
	if e := c.opt("embed"); e != "" && !strings.HasPrefix(e, "gorm.Model:") {
		extra += "type " + strings.SplitN(e, ":", 2)[0] + " struct{}\n"
	}
	if pkg == "main" {
		extra += "func main() {}\n"
	}
	xf, err := parser.ParseFile(fset, "extra.go", extra, 0)
	if err != nil {
		infra("extra file: %v\n%s", err, extra)
	}
	if _, err := (&types.Config{Importer: stubImporter{}}).Check(pkg, fset, []*ast.File{f, xf}, nil); err != nil {
		return fmt.Errorf("the output does not compile: %v", err)
	}

	// read the declarations
	structs := map[string]*ast.StructType{}
	var order []string
	tableName := map[string]string{}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			for _, sp := range d.Specs {
				if ts, ok := sp.(*ast.TypeSpec); ok {
					st, ok := ts.Type.(*ast.StructType)
					if !ok {
						return fmt.Errorf("type %s is no struct", ts.Name.Name)
					}
					structs[ts.Name.Name] = st
					order = append(order, ts.Name.Name)
				}
			}
		case *ast.FuncDecl:
			if d.Name.Name != "TableName" || d.Recv == nil || len(d.Body.List) != 1 {
				return fmt.Errorf("unexpected function %s", d.Name.Name)
			}
			recv := strings.TrimPrefix(typeText(fset, d.Recv.List[0].Type), "*")
			ret, ok := d.Body.List[0].(*ast.ReturnStmt)
			if !ok || len(ret.Results) != 1 {
				return fmt.Errorf("TableName of %s returns nothing", recv)
			}
			lit, ok := ret.Results[0].(*ast.BasicLit)
			if !ok {
				return fmt.Errorf("TableName of %s returns no literal", recv)
			}
			s, err := strconv.Unquote(lit.Value)
			if err != nil {
				return err
			}
			tableName[recv] = s
		}
	}
	var want []string
	for _, tb := range sel.Tables {
		want = append(want, name(tb))
	}
	if len(want)+len(order) > 0 && !reflect.DeepEqual(want, order) {
		return fmt.Errorf("structs %v, expected %v", order, want)
	}
	for _, tb := range sel.Tables {
		n := name(tb)
		if tableName[n] != tb.Name {
			return fmt.Errorf("TableName of %s is %q, expected %q", n, tableName[n], tb.Name)
		}
		if err := checkGormStruct(c, o, full, tb, structs[n], fset, name); err != nil {
			return fmt.Errorf("struct %s: %v", n, err)
		}
	}
	return nil
}

func checkGormStruct(c *Case, o *Outcome, full *Schema, tb *Table, st *ast.StructType, fset *token.FileSet, name func(*Table) string) error {
	// embedded models: which ones apply when several match is decided by name
	left := map[string]bool{}
	for _, x := range tb.Columns {
		left[x.Name] = true
	}
	covered := map[string]bool{}
	var embeds []string
	models := gormEmbeds(c)
	for _, m := range sortedKeys(models) {
		all := true
		for _, x := range models[m] {
			all = all && left[x]
		}
		if !all {
			continue
		}
		embeds = append(embeds, m)
		for _, x := range models[m] {
			delete(left, x)
			covered[x] = true
		}
	}
	var got []goField
	var gotEmbeds []string
	for _, fl := range st.Fields.List {
		tag := ""
		if fl.Tag != nil {
			s, err := strconv.Unquote(fl.Tag.Value)
			if err != nil {
				return err
			}
			tag = s
		}
		typ := typeText(fset, fl.Type)
		if len(fl.Names) == 0 {
			if len(got) > 0 || tag != "" {
				return fmt.Errorf("embedded %s is not at the top", typ)
			}
			gotEmbeds = append(gotEmbeds, typ)
			continue
		}
		for _, nm := range fl.Names {
			got = append(got, goField{nm.Name, typ, tag})
		}
	}
	if len(embeds)+len(gotEmbeds) > 0 && !reflect.DeepEqual(embeds, gotEmbeds) {
		return fmt.Errorf("embeds %v, expected %v", gotEmbeds, embeds)
	}
	if len(embeds) > 0 {
		o.label("embedded")
	}
	uniques := tb.Uniques()
	i := 0
	for _, x := range tb.Columns {
		if covered[x.Name] {
			continue
		}
		if i >= len(got) {
			return fmt.Errorf("column %s has no field", x.Name)
		}
		f := got[i]
		i++
		if f.name != goFieldName(x.Name) {
			return fmt.Errorf("column %s: field %s, expected %s", x.Name, f.name, goFieldName(x.Name))
		}
		if f.typ != goFieldType(x) {
			return fmt.Errorf("column %s (%s, notnull %v): type %s, expected %s", x.Name, x.Type, x.NotNull, f.typ, goFieldType(x))
		}
		var want []string
		var colTag string
		var tags []string
		if f.tag != "" {
			v, ok := reflect.StructTag(f.tag).Lookup("gorm")
			if !ok {
				return fmt.Errorf("column %s: tag %q has no gorm key", x.Name, f.tag)
			}
			for _, p := range strings.Split(v, ";") {
				if strings.HasPrefix(p, "column:") {
					colTag = p[7:]
					continue
				}
				tags = append(tags, p)
			}
		}
		eff := colTag
		if eff == "" {
			eff = gormColumn(f.name)
		}
		if eff != x.Name {
			return fmt.Errorf("column %s: the field %s stands for column %q", x.Name, f.name, eff)
		}
		switch x.Type {
		case "bit", "char", "varchar":
			if x.Size > 0 {
				want = append(want, fmt.Sprintf("type:%s(%d)", x.Type, x.Size))
			}
		case "double", "float", "decimal":
			if x.Size > 0 && x.Scale > 0 {
				want = append(want, fmt.Sprintf("type:%s(%d,%d)", x.Type, x.Size, x.Scale))
			}
		}
		if x.PK {
			want = append(want, "primary_key")
		}
		if x.Unique {
			if len(uniques) > 1 {
				want = append(want, "unique_index:"+tb.Name+c.opt("suffix"))
			} else {
				want = append(want, "unique")
			}
		}
		for _, ix := range tb.Indices {
			for k, col := range ix.Columns {
				if col == x.Name {
					if len(ix.Columns) == 1 {
						want = append(want, "index:"+ix.Name)
					} else {
						want = append(want, fmt.Sprintf("index:%s,priority:%d", ix.Name, k+1))
					}
					break
				}
			}
		}
		if x.AutoInc {
			want = append(want, "auto_increment")
		} else if x.NotNull {
			want = append(want, "not null")
		}
		a, b := append([]string{}, want...), append([]string{}, tags...)
		sort.Strings(a)
		sort.Strings(b)
		if len(a)+len(b) > 0 && !reflect.DeepEqual(a, b) {
			return fmt.Errorf("column %s: gorm tags %q, expected %q", x.Name, tags, want)
		}
	}
	taken := map[string]bool{}
	for _, x := range tb.Columns {
		taken[goFieldName(x.Name)] = true
	}
	for _, x := range tb.Columns {
		if x.Ref == nil {
			continue
		}
		rt := full.Table(x.Ref.Table)
		if rt == nil || rt.Col(x.Ref.Column) == nil {
			continue
		}
		if i >= len(got) {
			return fmt.Errorf("reference of %s has no field", x.Name)
		}
		f := got[i]
		i++
		o.label("association")
		typ := name(rt)
		if x.Ref.Relationship == "1:n" {
			typ = "[]" + typ
		}
		if c.flag("pointer") {
			typ = "*" + typ
		}
		tag := fmt.Sprintf(`gorm:"foreignKey:%s;references:%s"`, goFieldName(x.Name), goFieldName(x.Ref.Column))
		fname := name(rt)
		if taken[fname] { // any free name
			o.label("association-name-taken")
			fname = f.name
		}
		taken[f.name] = true
		if f.name != fname || f.typ != typ || f.tag != tag {
			return fmt.Errorf("reference of %s: field %v, expected {%s %s %s}", x.Name, f, fname, typ, tag)
		}
	}
	if i != len(got) {
		return fmt.Errorf("unexpected fields %v", got[i:])
	}
	return nil
}

func init() {
	register(&Property{
		ID: "C12", Title: "GORM source", Quick: 8000, Rule: schemaRule, Trivial: trivialSchema,
		Scenarios: []*Scenario{{Name: "generate", Weight: 1, Gen: genGorm, Check: checkGorm}},
	})
}
