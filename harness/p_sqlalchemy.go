package main

// C14: SQLAlchemy source.

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"sync"

	"pgregory.net/rapid"
)

//go:embed sa_runner.py
var saRunner []byte
var saRunnerOnce sync.Once

var pyKeywords = strSet("False", "None", "True", "and", "as", "assert", "async", "await", "break", "class", "continue", "def", "del", "elif", "else", "except", "finally", "for", "from", "global", "if", "import", "in", "is", "lambda", "nonlocal", "not", "or", "pass", "raise", "return", "try", "while", "with", "yield")

// names the generated module itself uses
var saNames = strSet("Base", "Column", "String", "Boolean", "Integer", "BigInteger", "Numeric", "Float", "DateTime", "Date", "Time", "LargeBinary", "UniqueConstraint", "TypeDecorator", "TZDateTime", "RepresentableBase", "None", "True", "False", "TypeError")

var saPool = []string{"id", "created_at", "updated_at", "deleted_at", "name", "datetime", "metadata", "user_id", "x", "await", "async", "line_1", "2fa", "class", "timezone", "userName", "from", "CREATED_AT", "createdAt", "updatedAt", "created_on"}

func genSA(t *rapid.T) *Case {
	so := jpaSchemaOpt()
	if chance(t, 40, "audit") {
		so.ColName = NameOpt{Pool: saPool}
		so.Types = append([]string{"datetime", "datetime", "datetime", "datetime", "datetime", "datetime", "int64", "int64"}, canonicalTypes...)
		so.MinCols, so.MaxCols = 2, 9
	}
	s := genSchema(t, so)
	c := &Case{Schema: s, Opts: map[string]string{}}
	c.Opts["output"] = pick(t, []string{"out.py", "models", "pkg/db.py", "a/b", "x.y/m.PY", "db.v1"}, "output")
	drawOpt(t, c.Opts, "suffix", 40, "_uq", "_UNIQUE")
	drawOpt(t, c.Opts, "useUTC", 40, "1")
	drawPrefixes(t, c)
	drawGroups(t, c.Opts, s, 20)
	for i, tb := range s.Tables {
		if saNames[className(tb, c.opt("prefix"), c.opt("removePrefix"), upperCamel)] {
			tb.ClassName = "Shadow" + alpha(i)
		}
	}
	fixClassNames(c, upperCamel)
	return c
}

type saColumn struct {
	Attr   string                 `json:"attr"`
	Name   string                 `json:"name"`
	Type   string                 `json:"type"`
	Params map[string]interface{} `json:"params"`
	KW     map[string]interface{} `json:"kw"`
}

type saClass struct {
	Class   string     `json:"class"`
	Table   string     `json:"table"`
	Columns []saColumn `json:"columns"`
	Uniques []struct {
		Cols []string `json:"cols"`
		Name string   `json:"name"`
	} `json:"uniques"`
}

type saModule struct {
	File     string        `json:"file"`
	Error    string        `json:"error"`
	Classes  []saClass     `json:"classes"`
	Floating []interface{} `json:"floating"`
	TZ       bool          `json:"tz"`
}

func (e *Env) runSA(dir string, files []string) []saModule {
	py := filepath.Join(e.Root, "sa_runner.py")
	saRunnerOnce.Do(func() {
		if err := os.WriteFile(py, saRunner, 0644); err != nil {
			infra("sa_runner: %v", err)
		}
	})
	r := e.Run(dir, "/usr/bin/python3", nil, append([]string{"-I", "-S", "-B", py}, files...)...)
	var ms []saModule
	if !r.OK() {
		infra("sa_runner: %s", r.Brief())
	}
	if err := json.Unmarshal([]byte(r.Stdout), &ms); err != nil || len(ms) != len(files) {
		infra("sa_runner output: %v %s", err, clip(r.Stdout, 300))
	}
	return ms
}

func saType(c *Col) (string, map[string]interface{}) {
	p := map[string]interface{}{}
	size := func(k string) {
		if c.Size > 0 {
			p[k] = float64(c.Size)
		}
	}
	switch c.Type {
	case "char", "varchar":
		size("length")
		return "String", p
	case "text8", "text16", "text24", "text32":
		return "String", p
	case "boolean":
		return "Boolean", p
	case "int8", "int16", "int24", "int32":
		return "Integer", p
	case "int64":
		return "BigInteger", p
	case "decimal":
		size("precision")
		if c.Scale > 0 {
			p["scale"] = float64(c.Scale)
		}
		return "Numeric", p
	case "float", "double":
		size("precision")
		return "Float", p
	case "datetime":
		return "DateTime", p
	case "date":
		return "Date", p
	case "time":
		return "Time", p
	case "blob8", "blob16", "blob24", "blob32":
		return "LargeBinary", p
	case "bit":
		if c.Size == 1 {
			return "Boolean", p
		}
	}
	return "", p
}

var plainSnake = regexp.MustCompile(`^[a-z]+(_[a-z]+)*$`)

func checkSA(e *Env, c *Case) *Outcome {
	o := &Outcome{}
	schemaLabels(o, c.Schema)
	dir, done := e.Scratch()
	defer done()
	in := filepath.Join(dir, "in.json")
	write(in, c.Schema.JSON())
	out := c.opt("output")
	args := append([]string{"generate", "sqlalchemy", "--input", in, "--output", filepath.Join(dir, out)}, groupArgs(c)...)
	for _, kv := range [][2]string{{"suffix", "--uniqueNameSuffix"}, {"prefix", "--prefix"}, {"removePrefix", "--removePrefix"}} {
		if v := c.opt(kv[0]); v != "" {
			args = append(args, kv[1], v)
			o.label("opt-" + kv[0])
		}
	}
	if c.flag("useUTC") {
		args = append(args, "--useUTC")
		o.label("useUTC")
	}
	r := e.RunOct(dir, args...)
	if !r.OK() {
		o.failf("generation from a valid schema failed: %s", r.Brief())
		return o
	}
	sel := c.Schema.Normalize()
	if g := splitGroups(c.opt("groups")); g != nil {
		sel = sel.Filter(g)
	}
	got := tree(dir)
	delete(got, "in.json")
	var files []string
	for k := range got {
		if !strings.HasSuffix(k, "/") {
			files = append(files, k)
		}
	}
	sort.Strings(files)
	single := strings.EqualFold(filepath.Ext(out), ".py")
	var want []string
	if single {
		o.label("single-file")
		want = []string{out}
	} else {
		o.label("multi-file")
		for _, tb := range sel.Tables {
			want = append(want, filepath.Join(out, tb.Name+".py"))
		}
	}
	sortedWant := append([]string{}, want...)
	sort.Strings(sortedWant)
	if strings.Join(files, "|") != strings.Join(sortedWant, "|") {
		o.failf("files %v, expected %v", files, sortedWant)
		return o
	}
	if len(want) == 0 {
		return o
	}
	fail := func(i int, f string, a ...interface{}) *Outcome {
		o.failf("%s: %s\n%s", want[i], fmt.Sprintf(f, a...), clip(got[want[i]], 2500))
		return o
	}
	var classes []saClass
	for i, m := range e.runSA(dir, want) {
		if m.Error != "" {
			return fail(i, "the module does not load: %s", m.Error)
		}
		if len(m.Floating) > 0 {
			return fail(i, "constraint %v belongs to no table", m.Floating)
		}
		if !single && len(m.Classes) != 1 {
			return fail(i, "%d classes in a file for one table", len(m.Classes))
		}
		if m.TZ {
			o.label("tzdatetime")
		}
		var cls []saClass
		for _, k := range m.Classes {
			if k.Class != "TZDateTime" {
				cls = append(cls, k)
			}
		}
		classes = append(classes, cls...)
	}
	if len(classes) != len(sel.Tables) {
		return fail(0, "%d classes for %d tables", len(classes), len(sel.Tables))
	}
	for i, tb := range sel.Tables {
		at := 0
		if !single {
			at = i
		}
		if err := checkSAClass(o, c, tb, &classes[i]); err != nil {
			return fail(at, "table %s: %v", tb.Name, err)
		}
	}
	return o
}

func checkSAClass(o *Outcome, c *Case, tb *Table, k *saClass) error {
	name := className(tb, c.opt("prefix"), c.opt("removePrefix"), upperCamel)
	if k.Table != tb.Name {
		return fmt.Errorf("class %s is for table %q", k.Class, k.Table)
	}
	if k.Class != name {
		return fmt.Errorf("class %s, expected %s", k.Class, name)
	}
	if len(k.Columns) != len(tb.Columns) {
		return fmt.Errorf("%d columns, expected %d", len(k.Columns), len(tb.Columns))
	}
	us := tb.Uniques()
	for i, x := range tb.Columns {
		g := k.Columns[i]
		if g.Name != x.Name {
			return fmt.Errorf("column %d is %q, expected %q", i, g.Name, x.Name)
		}
		if plainSnake.MatchString(x.Name) && !pyKeywords[x.Name] && x.Name != "metadata" && x.Name != "datetime" {
			if g.Attr != x.Name {
				return fmt.Errorf("attribute %s for column %s", g.Attr, x.Name)
			}
		} else {
			o.label("renamed-attribute")
		}
		typ, params := saType(x)
		kw := map[string]interface{}{}
		if x.Type == "datetime" {
			now := "now"
			if c.flag("useUTC") {
				now = "utcnow"
			}
			switch x.Name {
			case "updated_at":
				kw["onupdate"] = now
				fallthrough
			case "created_at":
				kw["default"] = now
				o.label("audit")
			default:
				if c.flag("useUTC") {
					typ = "TZDateTime"
				}
			}
		}
		if g.Type != typ || !reflect.DeepEqual(g.Params, params) {
			return fmt.Errorf("column %s: type %s%v, expected %s%v for %s(%d,%d)", x.Name, g.Type, g.Params, typ, params, x.Type, x.Size, x.Scale)
		}
		if x.PK {
			kw["primary_key"] = true
		}
		if x.AutoInc {
			kw["autoincrement"] = true
		}
		if x.NotNull && !x.AutoInc {
			kw["nullable"] = false
		}
		if x.Unique && len(us) == 1 && len(k.Uniques) == 0 {
			kw["unique"] = true
		}
		if (x.PK || x.AutoInc && x.NotNull) && g.KW["nullable"] == false { // says nothing new
			kw["nullable"] = false
		}
		if !reflect.DeepEqual(g.KW, kw) {
			return fmt.Errorf("column %s has the attributes %v, expected %v", x.Name, g.KW, kw)
		}
	}
	if len(us) > 1 || len(k.Uniques) > 0 {
		o.label("unique-constraint")
		var cols []string
		for _, x := range us {
			cols = append(cols, x.Name)
		}
		if len(k.Uniques) != 1 || strings.Join(k.Uniques[0].Cols, ",") != strings.Join(cols, ",") || k.Uniques[0].Name != tb.Name+c.opt("suffix") {
			return fmt.Errorf("unique constraints %+v, expected %s over %v", k.Uniques, tb.Name+c.opt("suffix"), cols)
		}
	}
	return nil
}

func init() {
	register(&Property{
		ID: "C14", Title: "SQLAlchemy source", Quick: 4000, Rule: schemaRule, Trivial: trivialSchema,
		Scenarios: []*Scenario{{Name: "python", Weight: 1, Gen: genSA, Check: checkSA}},
		Assume:    []string{"sqlalchemy itself is not installed: stand-ins with its signatures record the classes, columns, types and constraints", "class names are distinct and differ from the names the generated module uses"},
	})
}
