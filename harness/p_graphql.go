package main

// C16: GraphQL schema.

import (
	"fmt"
	"path/filepath"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

var gqlNames = strSet("Query", "String", "Int", "Float", "Boolean", "ID", "Mutation", "Subscription")

func genGraphql(t *rapid.T) *Case {
	so := jpaSchemaOpt()
	if chance(t, 30, "plurals") {
		so.TableName = NameOpt{Pool: []string{"user", "users", "category", "categories", "person", "people", "news", "child", "children", "city", "cities", "bus", "buses", "order_item", "order_items"}}
		so.MaxTables = 7
	} else if chance(t, 15, "samePlurals") { // several words with one plural
		so.TableName = NameOpt{Pool: []string{"base", "basis", "bases", "axis", "axes", "axe", "analysis", "analyses", "analyse", "datum", "data", "leaf", "leave", "leaves"}}
		so.MinTables, so.MaxTables = 2, 9
	}
	if chance(t, 20, "odd") {
		so.ColName = NameOpt{Pool: auditPool}
	}
	s := genSchema(t, so)
	c := &Case{Schema: s, Opts: map[string]string{}}
	c.Opts["output"] = pick(t, []string{"out", "a/b.c"}, "output")
	drawOpt(t, c.Opts, "package", 20, "model")
	for i, tb := range s.Tables {
		if gqlNames[className(tb, "", "", upperCamel)] {
			tb.ClassName = "Shadow" + alpha(i)
		}
	}
	fixClassNames(c, upperCamel)
	return c
}

type gqlField struct{ name, typ string }
type gqlType struct {
	name   string
	fields []gqlField
}

var gqlTok = regexp.MustCompile(`^(?:[\s,]+|#[^\n]*)*(?:([_A-Za-z][_0-9A-Za-z]*)|([{}:!\[\]]))`)

func readGraphql(text string) (schema string, ts []gqlType, err error) {
	defer func() {
		if r := recover(); r != nil {
			k, ok := r.(ktErr)
			if !ok {
				panic(r)
			}
			err = fmt.Errorf("not valid SDL: %s", k.s)
		}
	}()
	die := func(s string, a ...interface{}) { panic(ktErr{fmt.Sprintf(s, a...)}) }
	var toks []string
	rest := text
	for {
		m := gqlTok.FindStringSubmatch(rest)
		if m == nil {
			if strings.TrimSpace(rest) != "" {
				die("unexpected text at %q", clip(strings.TrimSpace(rest), 40))
			}
			break
		}
		rest = rest[len(m[0]):]
		toks = append(toks, m[1]+m[2])
	}
	i := 0
	next := func() string {
		if i >= len(toks) {
			die("unexpected end of file")
		}
		i++
		return toks[i-1]
	}
	expect := func(s string) {
		if g := next(); g != s {
			die("expected %q, found %q", s, g)
		}
	}
	name := func() string {
		s := next()
		if strings.ContainsAny(s, "{}:![]") || strings.HasPrefix(s, "__") {
			die("bad name %q", s)
		}
		return s
	}
	var typ func() string
	typ = func() string {
		var s string
		if i < len(toks) && toks[i] == "[" {
			i++
			s = "[" + typ() + "]"
			expect("]")
		} else {
			s = name()
		}
		if i < len(toks) && toks[i] == "!" {
			i++
			s += "!"
		}
		return s
	}
	for i < len(toks) {
		switch k := next(); k {
		case "schema":
			if schema != "" {
				die("two schema definitions")
			}
			expect("{")
			expect("query")
			expect(":")
			schema = name()
			expect("}")
		case "type":
			x := gqlType{name: name()}
			expect("{")
			for i < len(toks) && toks[i] != "}" {
				f := gqlField{name: name()}
				expect(":")
				f.typ = typ()
				x.fields = append(x.fields, f)
			}
			expect("}")
			if len(x.fields) == 0 {
				die("type %s is empty", x.name)
			}
			ts = append(ts, x)
		default:
			die("unexpected %q", k)
		}
	}
	return schema, ts, nil
}

var knownPlurals = map[string]string{"user": "users", "category": "categories", "person": "people", "news": "news", "child": "children", "city": "cities", "bus": "buses", "orderItem": "orderItems", "company": "companies", "product": "products", "address": "addresses"}

func checkGraphql(e *Env, c *Case) *Outcome {
	o := &Outcome{}
	schemaLabels(o, c.Schema)
	dir, done := e.Scratch()
	defer done()
	in := filepath.Join(dir, "in.json")
	write(in, c.Schema.JSON())
	args := []string{"generate", "graphql", "--input", in, "--output", filepath.Join(dir, c.opt("output"))}
	if c.flag("package") {
		args = append(args, "--graphqlPackage", c.opt("package"))
	}
	r := e.RunOct(dir, args...)
	if !r.OK() {
		o.failf("generation from a valid schema failed: %s", r.Brief())
		return o
	}
	want := c.opt("output") + "/" + c.Schema.Name + "-" + c.Schema.Version + ".graphqls"
	text, ok := "", false
	for k, v := range tree(dir) {
		switch {
		case k == want:
			text, ok = v, true
		case k == "in.json" || strings.HasSuffix(k, "/"):
		default:
			o.failf("unexpected file %s", k)
			return o
		}
	}
	if !ok {
		o.failf("there is no file %s", want)
		return o
	}
	if err := checkGraphqlText(o, c, text); err != nil {
		o.failf("%v\n%s", err, clip(text, 2500))
	}
	return o
}

func checkGraphqlText(o *Outcome, c *Case, text string) error {
	root, ts, err := readGraphql(text)
	if err != nil {
		return err
	}
	full := c.Schema.Normalize()
	if root != "Query" || len(ts) == 0 || ts[0].name != "Query" {
		return fmt.Errorf("the root type is %q and the first type is not Query", root)
	}
	q := ts[0].fields
	ts = ts[1:]
	if len(ts) != len(full.Tables) || len(q) != len(full.Tables) {
		return fmt.Errorf("%d types and %d queries for %d tables", len(ts), len(q), len(full.Tables))
	}
	seen := map[string]bool{}
	taken := map[string]bool{}
	for i, tb := range full.Tables {
		cls := className(tb, "", "", upperCamel)
		if ts[i].name != cls {
			return fmt.Errorf("type %s, expected %s for table %s", ts[i].name, cls, tb.Name)
		}
		if seen[cls] {
			return fmt.Errorf("type %s is defined twice", cls)
		}
		seen[cls] = true
		low := camel(cls, false)
		if q[i].typ != "["+cls+"]" {
			return fmt.Errorf("query %s has type %s, expected [%s]", q[i].name, q[i].typ, cls)
		}
		if taken[q[i].name] {
			return fmt.Errorf("query %s is defined twice", q[i].name)
		}
		if p := knownPlurals[low]; p != "" {
			if taken[p] {
				o.label("plural-taken")
			} else if q[i].name != p {
				return fmt.Errorf("query %s, expected %s", q[i].name, p)
			}
			o.label("known-plural")
		}
		taken[q[i].name] = true
		if len(ts[i].fields) != len(tb.Columns) {
			return fmt.Errorf("type %s has %d fields for %d columns", cls, len(ts[i].fields), len(tb.Columns))
		}
		names := map[string]bool{}
		for k, x := range tb.Columns {
			f := ts[i].fields[k]
			name := camel(x.Name, false)
			if name[0] >= '0' && name[0] <= '9' {
				name = f.name // any valid name
				o.label("digit-name")
			}
			typ := "String"
			switch x.Type {
			case "boolean":
				typ = "Boolean"
			case "int8", "int16", "int24", "int32", "int64":
				typ = "Int"
			case "decimal", "float", "double":
				typ = "Float"
			}
			if x.NotNull {
				typ += "!"
			}
			if x.PK && len(tb.PKs()) == 1 {
				typ = "ID!"
			}
			if f.name != name || f.typ != typ || names[f.name] {
				return fmt.Errorf("type %s: field %s: %s for column %s (%s, notnull %v), expected %s: %s", cls, f.name, f.typ, x.Name, x.Type, x.NotNull, name, typ)
			}
			names[f.name] = true
		}
	}
	return nil
}

func init() {
	register(&Property{
		ID: "C16", Title: "GraphQL schema", Quick: 8000, Rule: schemaRule, Trivial: trivialSchema,
		Scenarios: []*Scenario{{Name: "graphql", Weight: 1, Gen: genGraphql, Check: checkGraphql}},
		Assume:    []string{"type names are distinct and not those of the root and scalar types"},
	})
}
