package main

// C15: protobuf messages.

import (
	"fmt"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

func messageName(c *Case, tb *Table) string {
	x := *tb
	x.ClassName = ""
	return className(&x, c.opt("prefix"), c.opt("removePrefix"), upperCamel)
}

// fixMessageNames drops the naming options when they would make names equal or empty.
func fixMessageNames(c *Case, name func(*Case, *Table) string) {
	for _, drop := range []string{"removePrefix", "prefix"} {
		seen := map[string]bool{}
		bad := false
		for _, tb := range c.Schema.Tables {
			n := name(c, tb)
			bad = bad || n == "" || n[0] >= '0' && n[0] <= '9' || seen[nameKey(n)]
			seen[nameKey(n)] = true
		}
		if bad {
			delete(c.Opts, drop)
		}
	}
}

func genProto(t *rapid.T) *Case {
	so := jpaSchemaOpt()
	so.MaxCols = 8
	so.ColName.Filter = func(s string) bool { return s[0] < '0' || s[0] > '9' } // known finding
	s := genSchema(t, so)
	c := &Case{Schema: s, Opts: map[string]string{}}
	drawOpt(t, c.Opts, "package", 60, "model", "com.acme.entity", "a")
	drawOpt(t, c.Opts, "goPackage", 50, "model", "acme.com/x/y;model")
	drawOpt(t, c.Opts, "start", 60, "-1", "0", "1", "3", "5", "8", "10", "20", "100", "1000")
	drawOpt(t, c.Opts, "decr", 50, "1")
	drawPrefixes(t, c)
	drawGroups(t, c.Opts, s, 25)
	fixMessageNames(c, messageName)
	// more references to the same tables
	if chance(t, 30, "manyRefs") {
		to := pick(t, s.Tables, "manyTo")
		for _, tb := range s.Tables {
			for _, x := range tb.Columns {
				if chance(t, 40, "manyRef") {
					x.Ref = &Ref{Table: to.Name, Column: to.Columns[0].Name, Relationship: pick(t, []string{"n:1", "1:1", "1:n"}, "manyRel")}
				}
			}
		}
	}
	// a fallback name that is a column again is outside
	for _, tb := range s.Tables {
		fields := map[string]bool{}
		for _, x := range tb.Columns {
			fields[camel(x.Name, false)] = true
		}
		for _, x := range tb.Columns {
			if x.Ref == nil || s.Table(x.Ref.Table) == nil {
				continue
			}
			n := camel(messageName(c, s.Table(x.Ref.Table)), false)
			if fields[n] {
				n += upperCamel(x.Name)
			}
			if fields[n] {
				x.Ref = nil
				continue
			}
			fields[n] = true
		}
	}
	return c
}

type pbField struct {
	repeated bool
	typ      string
	name     string
	num      int
}

type pbMessage struct {
	name   string
	fields []pbField
}

type pbFile struct {
	pkg      string
	hasPkg   bool
	options  map[string]string
	imports  []string
	messages []pbMessage
}

var pbTok = regexp.MustCompile(`^(?:\s+|//[^\n]*)*(?:([A-Za-z_][A-Za-z0-9_.]*)|([0-9]+)|("(?:[^"\\\n]|\\.)*")|(-?[0-9]+)|([{};=]))`)
var pbIdent = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9_]*$`)
var pbFull = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*(\.[A-Za-z_][A-Za-z0-9_]*)*$`)

func readProto(text string) (f *pbFile, err error) {
	defer func() {
		if r := recover(); r != nil {
			k, ok := r.(ktErr)
			if !ok {
				panic(r)
			}
			err = fmt.Errorf("not valid proto3: %s", k.s)
		}
	}()
	die := func(s string, a ...interface{}) { panic(ktErr{fmt.Sprintf(s, a...)}) }
	var toks []string
	rest := text
	for {
		m := pbTok.FindStringSubmatch(rest)
		if m == nil {
			if strings.TrimSpace(rest) != "" {
				die("unexpected text at %q", clip(strings.TrimSpace(rest), 40))
			}
			break
		}
		rest = rest[len(m[0]):]
		if m[2] != "" && rest != "" && (rest[0] == '_' || rest[0] >= 'a' && rest[0] <= 'z' || rest[0] >= 'A' && rest[0] <= 'Z') {
			die("bad token %q", clip(m[2]+rest, 20))
		}
		for _, s := range m[1:] {
			if s != "" {
				toks = append(toks, s)
			}
		}
	}
	i := 0
	next := func() string {
		if i >= len(toks) {
			die("unexpected end of file")
		}
		i++
		return toks[i-1]
	}
	expect := func(s string) {
		if g := next(); g != s {
			die("expected %q, found %q", s, g)
		}
	}
	full := func() string {
		s := next()
		if !pbFull.MatchString(s) {
			die("bad name %q", s)
		}
		return s
	}
	str := func() string {
		s := next()
		if s[0] != '"' {
			die("expected a string, found %q", s)
		}
		u, err := strconv.Unquote(s)
		if err != nil {
			die("bad string %s", s)
		}
		return u
	}
	f = &pbFile{options: map[string]string{}}
	expect("syntax")
	expect("=")
	if s := str(); s != "proto3" {
		die("syntax %q", s)
	}
	expect(";")
	for i < len(toks) {
		switch k := next(); k {
		case "package":
			if f.hasPkg {
				die("two package lines")
			}
			f.hasPkg = true
			f.pkg = full()
			expect(";")
		case "option":
			n := full()
			expect("=")
			if _, ok := f.options[n]; ok {
				die("option %s is set twice", n)
			}
			f.options[n] = str()
			expect(";")
		case "import":
			f.imports = append(f.imports, str())
			expect(";")
		case "message":
			m := pbMessage{name: next()}
			if !pbIdent.MatchString(m.name) && !(m.name[0] == '_' && pbFull.MatchString(m.name)) || strings.Contains(m.name, ".") {
				die("bad message name %q", m.name)
			}
			expect("{")
			for toks[i] != "}" {
				var x pbField
				t := next()
				if t == "repeated" {
					x.repeated = true
					t = next()
				}
				if !pbFull.MatchString(t) {
					die("bad type %q", t)
				}
				x.typ = t
				x.name = full()
				if strings.Contains(x.name, ".") {
					die("bad field name %q", x.name)
				}
				expect("=")
				n, err := strconv.Atoi(next())
				if err != nil || n < 1 || n > 536870911 || n >= 19000 && n <= 19999 {
					die("bad number of field %s", x.name)
				}
				x.num = n
				expect(";")
				m.fields = append(m.fields, x)
				if i >= len(toks) {
					die("unexpected end of file")
				}
			}
			i++
			f.messages = append(f.messages, m)
		case ";":
		default:
			die("unexpected %q", k)
		}
	}
	return f, nil
}

func pbType(typ string) string {
	switch typ {
	case "boolean":
		return "bool"
	case "int64":
		return "int64"
	case "int8", "int16", "int24", "int32":
		return "int32"
	case "float":
		return "float"
	case "decimal", "double":
		return "double"
	case "datetime":
		return "google.protobuf.Timestamp"
	case "blob8", "blob16", "blob24", "blob32":
		return "bytes"
	case "char", "varchar", "text8", "text16", "text24", "text32":
		return "string"
	}
	return "" // any scalar
}

var pbScalar = strSet("double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes")

func checkProto(e *Env, c *Case) *Outcome {
	o := &Outcome{}
	schemaLabels(o, c.Schema)
	dir, done := e.Scratch()
	defer done()
	in, out := filepath.Join(dir, "in.json"), filepath.Join(dir, "out.proto")
	write(in, c.Schema.JSON())
	args := append([]string{"generate", "pb", "--input", in, "--output", out}, groupArgs(c)...)
	for _, kv := range [][2]string{{"package", "--package"}, {"goPackage", "--goPackage"}, {"prefix", "--prefix"}, {"removePrefix", "--removePrefix"}, {"start", "--relationTagStart"}} {
		if v := c.opt(kv[0]); v != "" {
			args = append(args, kv[1], v)
			o.label("opt-" + kv[0])
		}
	}
	if c.flag("decr") {
		args = append(args, "--relationTagDecr")
		o.label("opt-decr")
	}
	r := e.RunOct(dir, args...)
	if !r.OK() {
		o.failf("generation from a valid schema failed: %s", r.Brief())
		return o
	}
	text := read(out)
	if err := checkProtoText(o, c, text); err != nil {
		o.failf("%v\n%s", err, clip(text, 2500))
	}
	return o
}

func checkProtoText(o *Outcome, c *Case, text string) error {
	f, err := readProto(text)
	if err != nil {
		return err
	}
	if f.pkg != c.opt("package") {
		return fmt.Errorf("package %q, expected %q", f.pkg, c.opt("package"))
	}
	wantOpt := map[string]string{}
	if g := c.opt("goPackage"); g != "" {
		wantOpt["go_package"] = g
	}
	if fmt.Sprint(f.options) != fmt.Sprint(wantOpt) {
		return fmt.Errorf("options %v, expected %v", f.options, wantOpt)
	}
	sel := c.Schema.Normalize()
	if g := splitGroups(c.opt("groups")); g != nil {
		sel = sel.Filter(g)
	}
	if len(f.messages) != len(sel.Tables) {
		return fmt.Errorf("%d messages for %d tables", len(f.messages), len(sel.Tables))
	}
	needTS := false
	for i, tb := range sel.Tables {
		m := f.messages[i]
		if n := messageName(c, tb); m.name != n {
			return fmt.Errorf("message %s, expected %s for table %s", m.name, n, tb.Name)
		}
		names := map[string]bool{}
		nums := map[int]bool{}
		for _, x := range m.fields {
			if names[x.name] || nums[x.num] {
				return fmt.Errorf("message %s: the name or number of field %s = %d is taken", m.name, x.name, x.num)
			}
			names[x.name], nums[x.num] = true, true
		}
		var refs []*Col
		for _, x := range tb.Columns {
			if x.Ref != nil && sel.Table(x.Ref.Table) != nil {
				refs = append(refs, x)
			}
		}
		if len(m.fields) != len(tb.Columns)+len(refs) {
			return fmt.Errorf("message %s has %d fields for %d columns and %d relations", m.name, len(m.fields), len(tb.Columns), len(refs))
		}
		taken := map[string]bool{}
		for k, x := range tb.Columns {
			g := m.fields[k]
			typ := pbType(x.Type)
			if typ == "" && pbScalar[g.typ] {
				typ = g.typ
			}
			want := pbField{false, typ, camel(x.Name, false), k + 1}
			taken[want.name] = true
			if g != want {
				return fmt.Errorf("message %s: field %+v for column %s (%s), expected %+v", m.name, g, x.Name, x.Type, want)
			}
			needTS = needTS || x.Type == "datetime"
		}
		start, _ := strconv.Atoi(c.opt("start"))
		if c.opt("start") == "" {
			start = -1
		}
		last, n := len(tb.Columns), len(refs)
		step := 1
		if c.flag("decr") {
			step = -1
			if start-n+1 <= last {
				start = last + n
			}
		} else if start <= last {
			start = last + 1
		} else if n > 0 {
			o.label("tag-start")
		}
		for k, x := range refs {
			g := m.fields[len(tb.Columns)+k]
			target := messageName(c, sel.Table(x.Ref.Table))
			want := pbField{x.Ref.Relationship == "1:n", target, camel(target, false), start + step*k}
			if taken[want.name] {
				want.name = g.name // any free name
				o.label("relation-name-taken")
			}
			taken[want.name] = true
			if g != want {
				return fmt.Errorf("message %s: field %+v for the reference of %s to %s (%s), expected %+v", m.name, g, x.Name, x.Ref.Table, x.Ref.Relationship, want)
			}
			o.label("relation")
			if want.repeated {
				o.label("repeated")
			}
		}
	}
	imports := ""
	if needTS {
		imports = "google/protobuf/timestamp.proto"
	}
	if s := strings.Join(f.imports, " "); s != imports {
		return fmt.Errorf("imports %q, expected %q", s, imports)
	}
	return nil
}

func init() {
	register(&Property{
		ID: "C15", Title: "Protobuf definition", Quick: 8000, Rule: schemaRule, Trivial: trivialSchema,
		Scenarios: []*Scenario{{Name: "proto", Weight: 1, Gen: genProto, Check: checkProto}},
		Assume:    []string{"message names are distinct; columns that start with a digit are a known finding"},
	})
}
