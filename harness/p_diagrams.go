package main

// C17 DBML, C18 PlantUML, C19 QuickDBD.

import (
	"fmt"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

func diagramSchemaOpt() SchemaOpt {
	o := mysqlSchemaOpt()
	o.TableName = NameOpt{Upper: true, Awkward: true, Under: true}
	o.ColName = NameOpt{Upper: true, Awkward: true, Under: true}
	o.Dangling = false
	o.MaxTables = 6
	o.OddSizes = true
	return o
}

// diaRef is a reference as the diagram states it.
type diaRef struct{ table, col, rel, toTable, toCol string }

type diaCol struct {
	name, typ string
	set       map[string]string // settings; keys are lower case
}

type diaTable struct {
	name, note string
	cols       []diaCol
}

func sizedType(x *Col) string {
	switch {
	case x.Size == 0:
		return x.Type
	case x.Scale == 0:
		return fmt.Sprintf("%s(%d)", x.Type, x.Size)
	}
	return fmt.Sprintf("%s(%d,%d)", x.Type, x.Size, x.Scale)
}

// wantRefs lists the references between the given tables, in order.
func wantRefs(s *Schema) []diaRef {
	var r []diaRef
	for _, tb := range s.Tables {
		for _, x := range tb.Columns {
			if x.Ref == nil || s.Table(x.Ref.Table) == nil {
				continue
			}
			rel := x.Ref.Relationship
			if rel == "" {
				rel = "n:1"
			}
			r = append(r, diaRef{tb.Name, x.Name, rel, x.Ref.Table, x.Ref.Column})
		}
	}
	return r
}

// sameRefs compares as multisets.
func sameRefs(got, want []diaRef) error {
	n := map[diaRef]int{}
	for _, r := range want {
		n[r]++
	}
	for _, r := range got {
		n[r]--
		if n[r] < 0 {
			return fmt.Errorf("unexpected reference %v (expected %v)", r, want)
		}
	}
	for _, r := range want {
		if n[r] > 0 {
			return fmt.Errorf("reference %v is missing (found %v)", r, got)
		}
	}
	return nil
}

// dropRel leaves the relationship of some references to its default.
func dropRel(t *rapid.T, s *Schema) {
	for _, tb := range s.Tables {
		for _, x := range tb.Columns {
			if x.Ref != nil && chance(t, 10, "noRel") {
				x.Ref.Relationship = ""
			}
		}
	}
}

// ------------------------------------------------------------------ DBML

type dbTok struct {
	kind byte // i identifier, s string, b backtick expression, n number, p punctuation, l line end
	text string
}

var dbNum = regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?([^\pL_0-9.]|$)`)
var dbIdent = regexp.MustCompile(`^[\pL_0-9]+`)

func lexDBML(text string) []dbTok {
	die := func(s string, a ...interface{}) { panic(ktErr{fmt.Sprintf(s, a...)}) }
	var r []dbTok
	i := 0
	for i < len(text) {
		ch := text[i]
		switch {
		case ch == '\n':
			r = append(r, dbTok{'l', "\n"})
			i++
		case ch == ' ' || ch == '\t' || ch == '\r':
			i++
		case strings.HasPrefix(text[i:], "//"):
			for i < len(text) && text[i] != '\n' {
				i++
			}
		case strings.HasPrefix(text[i:], "'''"):
			j := strings.Index(text[i+3:], "'''")
			if j < 0 {
				die("unterminated string")
			}
			r = append(r, dbTok{'s', text[i+3 : i+3+j]})
			i += j + 6
		case ch == '\'' || ch == '"' || ch == '`':
			var b strings.Builder
			k := i + 1
			for {
				if k >= len(text) || text[k] == '\n' {
					die("unterminated string at %q", clip(text[i:], 40))
				}
				if text[k] == ch {
					break
				}
				if text[k] == '\\' && ch != '`' {
					k++
					if k >= len(text) {
						die("unterminated string")
					}
					switch e := text[k]; e {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					case 'r':
						b.WriteByte('\r')
					case '\\', '\'', '"', '`':
						b.WriteByte(e)
					default:
						die("bad escape \\%c", e)
					}
					k++
					continue
				}
				b.WriteByte(text[k])
				k++
			}
			kind := byte('s')
			if ch == '`' {
				kind = 'b'
			}
			r = append(r, dbTok{kind, b.String()})
			i = k + 1
		default:
			if m := dbNum.FindStringSubmatch(text[i:]); m != nil {
				n := strings.TrimSuffix(m[0], m[2])
				r = append(r, dbTok{'n', n})
				i += len(n)
			} else if m := dbIdent.FindString(text[i:]); m != "" {
				r = append(r, dbTok{'i', m})
				i += len(m)
			} else if strings.IndexByte("{}[](),:.<>-", ch) >= 0 {
				r = append(r, dbTok{'p', string(ch)})
				i++
			} else {
				die("unexpected character at %q", clip(text[i:], 40))
			}
		}
	}
	return append(r, dbTok{'l', "\n"})
}

var dbRel = map[string]string{">": "n:1", "<": "1:n", "-": "1:1"}

func readDBML(text string) (ts []diaTable, refs []diaRef, err error) {
	defer func() {
		if r := recover(); r != nil {
			k, ok := r.(ktErr)
			if !ok {
				panic(r)
			}
			err = fmt.Errorf("not valid DBML: %s", k.s)
		}
	}()
	die := func(s string, a ...interface{}) { panic(ktErr{fmt.Sprintf(s, a...)}) }
	toks := lexDBML(text)
	i := 0
	skipNL := func() {
		for i < len(toks) && toks[i].kind == 'l' {
			i++
		}
	}
	next := func() dbTok {
		if i >= len(toks) {
			die("unexpected end of file")
		}
		i++
		return toks[i-1]
	}
	expect := func(s string) {
		if k := next(); k.kind != 'p' || k.text != s {
			die("expected %q, found %q", s, k.text)
		}
	}
	is := func(s string) bool { return i < len(toks) && toks[i].kind == 'p' && toks[i].text == s }
	name := func() string {
		k := next()
		if k.kind == 'i' || k.kind == 's' || k.kind == 'n' && !strings.ContainsAny(k.text, "-.") {
			return k.text
		}
		die("expected a name, found %q", k.text)
		return ""
	}
	rel := func() string {
		k := next()
		if k.kind == 'p' && dbRel[k.text] != "" {
			return dbRel[k.text]
		}
		die("expected a relationship, found %q", k.text)
		return ""
	}
	endpoint := func() (string, string) {
		a := name()
		expect(".")
		return a, name()
	}
	lineEnd := func() {
		if k := next(); k.kind != 'l' {
			die("unexpected %q at the end of a line", k.text)
		}
	}
	for skipNL(); i < len(toks); skipNL() {
		switch k := next(); strings.ToLower(k.text) {
		case "ref":
			if !is(":") {
				name()
			}
			expect(":")
			var f diaRef
			f.table, f.col = endpoint()
			f.rel = rel()
			f.toTable, f.toCol = endpoint()
			lineEnd()
			refs = append(refs, f)
		case "table":
			tb := diaTable{name: name()}
			expect("{")
			lineEnd()
			for skipNL(); !is("}"); skipNL() {
				if i >= len(toks) {
					die("unexpected end of file")
				}
				if strings.EqualFold(toks[i].text, "note") && i+1 < len(toks) && toks[i+1].text == ":" {
					i += 2
					if tb.note != "" {
						die("two notes")
					}
					tb.note = next().text
					lineEnd()
					continue
				}
				c := diaCol{name: name(), set: map[string]string{}}
				c.typ = name()
				if is("(") {
					i++
					c.typ += "("
					for !is(")") {
						c.typ += next().text
					}
					i++
					c.typ += ")"
				}
				if is("[") {
					i++
					for {
						key := strings.ToLower(next().text)
						if key == "primary" || key == "not" {
							key += " " + strings.ToLower(next().text)
						}
						val := ""
						switch key {
						case "pk", "unique", "not null", "increment", "null", "primary key":
							if key == "primary key" {
								key = "pk"
							}
						case "note":
							expect(":")
							v := next()
							if v.kind != 's' {
								die("a note must be a string")
							}
							val = v.text
						case "default":
							expect(":")
							v := next()
							switch v.kind {
							case 's', 'b', 'n':
							case 'i':
								if v.text != "true" && v.text != "false" && v.text != "null" {
									die("bad default %q", v.text)
								}
							default:
								die("bad default %q", v.text)
							}
							val = string(v.kind) + v.text
						case "ref":
							expect(":")
							f := diaRef{table: tb.name, col: c.name, rel: rel()}
							f.toTable, f.toCol = endpoint()
							refs = append(refs, f)
						default:
							die("unknown setting %q", key)
						}
						if key != "ref" {
							if _, dup := c.set[key]; dup {
								die("setting %q is given twice", key)
							}
							c.set[key] = val
						}
						if is("]") {
							i++
							break
						}
						expect(",")
					}
				}
				lineEnd()
				tb.cols = append(tb.cols, c)
			}
			i++
			if len(tb.cols) == 0 {
				die("table %s is empty", tb.name)
			}
			ts = append(ts, tb)
		default:
			die("unexpected %q", k.text)
		}
	}
	return ts, refs, nil
}

func genDBML(t *rapid.T) *Case {
	s := genSchema(t, diagramSchemaOpt())
	if chance(t, 6, "caseTwin") {
		caseTwin(t, s)
	}
	dropRel(t, s)
	c := &Case{Schema: s, Opts: map[string]string{}}
	drawGroups(t, c.Opts, s, 30)
	return c
}

func checkDBML(e *Env, c *Case) *Outcome {
	o := &Outcome{}
	schemaLabels(o, c.Schema)
	dir, done := e.Scratch()
	defer done()
	in, out := filepath.Join(dir, "in.json"), filepath.Join(dir, "out.dbml")
	write(in, c.Schema.JSON())
	r := e.RunOct(dir, append([]string{"export", "dbml", "--input", in, "--output", out}, groupArgs(c)...)...)
	if !r.OK() {
		o.failf("export of a valid schema failed: %s", r.Brief())
		return o
	}
	if !exists(out) {
		o.failf("no output file")
		return o
	}
	text := read(out)
	if err := dbmlText(o, c, text); err != nil {
		o.failf("%v\n%s", err, clip(text, 2500))
	}
	return o
}

func selected(c *Case) *Schema {
	s := c.Schema.Normalize()
	if g := c.opt("groups"); g != "" {
		s = s.Filter(strings.Split(g, ","))
	}
	return s
}

func dbmlText(o *Outcome, c *Case, text string) error {
	ts, refs, err := readDBML(text)
	if err != nil {
		return err
	}
	want := selected(c)
	if c.flag("groups") {
		o.label("groups")
	}
	if len(ts) != len(want.Tables) {
		return fmt.Errorf("%d tables, expected %d", len(ts), len(want.Tables))
	}
	for i, tb := range want.Tables {
		g := ts[i]
		if g.name != tb.Name {
			return fmt.Errorf("table %s, expected %s", g.name, tb.Name)
		}
		if g.note != "" && g.note != tb.Desc {
			return fmt.Errorf("table %s has the note %q, its description is %q", g.name, g.note, tb.Desc)
		}
		if len(g.cols) != len(tb.Columns) {
			return fmt.Errorf("table %s has %d columns, expected %d", g.name, len(g.cols), len(tb.Columns))
		}
		for k, x := range tb.Columns {
			col := g.cols[k]
			at := tb.Name + "." + x.Name
			if col.name != x.Name || col.typ != sizedType(x) {
				return fmt.Errorf("column %s %s, expected %s %s", col.name, col.typ, x.Name, sizedType(x))
			}
			has := func(k string) bool { _, ok := col.set[k]; return ok }
			if has("pk") != x.PK || has("unique") != x.Unique || has("not null") != x.NotNull || has("null") && x.NotNull || has("increment") && !x.AutoInc {
				return fmt.Errorf("settings of %s are %v; pk %v unique %v notnull %v autoinc %v", at, col.set, x.PK, x.Unique, x.NotNull, x.AutoInc)
			}
			if col.set["note"] != x.Desc {
				return fmt.Errorf("note of %s is %q, expected %q", at, col.set["note"], x.Desc)
			}
			if err := dbmlDefault(col.set["default"], x); err != nil {
				return fmt.Errorf("column %s: %v", at, err)
			}
		}
	}
	return sameRefs(refs, wantRefs(want))
}

func dbmlDefault(got string, x *Col) error {
	if x.Default == "" {
		if got != "" {
			return fmt.Errorf("unexpected default %q", got)
		}
		return nil
	}
	if got == "" {
		return fmt.Errorf("default %q is missing", x.Default)
	}
	kind, val := got[0], got[1:]
	v, fn := splitFn(x.Default)
	ok := true
	switch {
	case fn:
		ok = kind == 'b'
	case x.Type == "varchar" || x.Type == "char":
		ok = kind == 's'
	case isIntType(x.Type) || isFloatType(x.Type):
		ok = kind == 'n'
	case x.Type == "boolean":
		ok = kind == 'n' || kind == 'i'
	}
	if val != v || !ok {
		return fmt.Errorf("default is %q of kind %c, expected %q", val, kind, x.Default)
	}
	return nil
}

// -------------------------------------------------------------- PlantUML

func genPlantuml(t *rapid.T) *Case {
	s := genSchema(t, diagramSchemaOpt())
	if chance(t, 6, "caseTwin") {
		caseTwin(t, s)
	}
	dropRel(t, s)
	c := &Case{Schema: s, Opts: map[string]string{}}
	c.Opts["output"] = pick(t, []string{"out", "d.ir/x", "o.txt", "o.puml", "o.WSD", "o.pu", "o.iuml", "o.plantuml"}, "output")
	return c
}

var umlRel = map[string]string{"}o-||": "n:1", "||-o{": "1:n", "||-||": "1:1"}
var umlCol = regexp.MustCompile(`^ *(\* )?([\pL_0-9]+): ([a-z0-9]+)(\([0-9, ]+\))?((?: <<[A-Z]+>>)*)$`)
var umlLink = regexp.MustCompile(`^([\pL_0-9]+) (\S+) ([\pL_0-9]+)$`)
var umlEntity = regexp.MustCompile(`^entity ([\pL_0-9]+) \{$`)

func checkPlantuml(e *Env, c *Case) *Outcome {
	o := &Outcome{}
	schemaLabels(o, c.Schema)
	dir, done := e.Scratch()
	defer done()
	in := filepath.Join(dir, "in.json")
	write(in, c.Schema.JSON())
	r := e.RunOct(dir, "generate", "plantuml", "--input", in, "--output", filepath.Join(dir, c.opt("output")))
	if !r.OK() {
		o.failf("generation from a valid schema failed: %s", r.Brief())
		return o
	}
	want := c.opt("output")
	switch strings.ToLower(filepath.Ext(want)) {
	case ".wsd", ".pu", ".puml", ".plantuml", ".iuml":
		o.label("file")
	default:
		want += "/output.plantuml"
		o.label("dir")
	}
	text, ok := "", false
	for k, v := range tree(dir) {
		if k == want {
			text, ok = v, true
		} else if k != "in.json" && !strings.HasSuffix(k, "/") {
			o.failf("unexpected file %s", k)
			return o
		}
	}
	if !ok {
		o.failf("there is no file %s", want)
		return o
	}
	if err := plantumlText(c, text); err != nil {
		o.failf("%v\n%s", err, clip(text, 2500))
	}
	return o
}

func plantumlText(c *Case, text string) error {
	want := c.Schema.Normalize()
	lines := strings.Split(strings.TrimSpace(text), "\n")
	if lines[0] != "@startuml" || lines[len(lines)-1] != "@enduml" {
		return fmt.Errorf("not one complete diagram")
	}
	lines = lines[1 : len(lines)-1]
	var refs []diaRef
	var n int // tables
	for i := 0; i < len(lines); i++ {
		l := strings.TrimRight(lines[i], " \r")
		if strings.TrimSpace(l) == "" {
			continue
		}
		if m := umlLink.FindStringSubmatch(l); m != nil {
			rel := umlRel[m[2]]
			if rel == "" {
				return fmt.Errorf("unknown relationship %q", l)
			}
			refs = append(refs, diaRef{m[1], "", rel, m[3], ""})
			continue
		}
		m := umlEntity.FindStringSubmatch(l)
		if m == nil {
			return fmt.Errorf("unexpected line %q", l)
		}
		if n >= len(want.Tables) {
			return fmt.Errorf("entity %s is one too many", m[1])
		}
		tb := want.Tables[n]
		n++
		if m[1] != tb.Name {
			return fmt.Errorf("entity %s, expected %s", m[1], tb.Name)
		}
		k := 0
		sep, seenPlain := 0, false
		for i++; i < len(lines) && strings.TrimSpace(lines[i]) != "}"; i++ {
			l := strings.TrimRight(lines[i], " \r")
			if strings.TrimSpace(l) == "--" {
				sep++
				if seenPlain {
					return fmt.Errorf("%s: the separator stands below a column that is not part of the key", tb.Name)
				}
				continue
			}
			m := umlCol.FindStringSubmatch(l)
			if m == nil {
				return fmt.Errorf("unexpected line %q in %s", l, tb.Name)
			}
			if k >= len(tb.Columns) {
				return fmt.Errorf("%s: column %s is one too many", tb.Name, m[2])
			}
			x := tb.Columns[k]
			k++
			marks := map[string]int{}
			for _, w := range strings.Fields(m[5]) {
				marks[strings.Trim(w, "<>")]++
			}
			wm := map[string]int{}
			if x.PK {
				wm["PK"] = 1
				if sep > 0 && !seenPlain {
					return fmt.Errorf("%s: %s is part of the key, but the separator stands right above it", tb.Name, x.Name)
				}
			} else {
				if sep == 0 {
					return fmt.Errorf("%s: %s is not part of the key and stands above the separator", tb.Name, x.Name)
				}
				seenPlain = true
			}
			if x.Unique {
				wm["UQ"] = 1
			}
			if x.Ref != nil {
				wm["FK"] = 1
			}
			if m[2] != x.Name || m[3] != x.Type || m[4] != "" && m[3]+m[4] != sizedType(x) || (m[1] != "") != x.NotNull || fmt.Sprint(marks) != fmt.Sprint(wm) {
				return fmt.Errorf("%s: line %q for column %s %s (notnull %v, marks %v)", tb.Name, l, x.Name, sizedType(x), x.NotNull, wm)
			}
		}
		if i >= len(lines) {
			return fmt.Errorf("entity %s is not closed", tb.Name)
		}
		if k != len(tb.Columns) {
			return fmt.Errorf("%s: %d columns, expected %d", tb.Name, k, len(tb.Columns))
		}
		if sep > 1 || sep == 1 && !seenPlain {
			return fmt.Errorf("%s: a separator too many", tb.Name)
		}
	}
	if n != len(want.Tables) {
		return fmt.Errorf("%d entities, expected %d", n, len(want.Tables))
	}
	wr := wantRefs(want)
	for i := range wr {
		wr[i].col, wr[i].toCol = "", ""
	}
	return sameRefs(refs, wr)
}

// --------------------------------------------------------------- QuickDBD

func genQuickdbd(t *rapid.T) *Case {
	s := genSchema(t, diagramSchemaOpt())
	if chance(t, 6, "caseTwin") {
		caseTwin(t, s)
	}
	dropRel(t, s)
	for _, tb := range s.Tables {
		for _, x := range tb.Columns {
			// the format has no quoting: a comment sign ends the definition
			x.Default = strings.ReplaceAll(x.Default, "#", "=")
		}
	}
	return &Case{Schema: s, Opts: map[string]string{}}
}

var qdRel = map[string]string{">-": "n:1", "-<": "1:n", "-": "1:1"}
var qdFK = regexp.MustCompile(`^(.*?) ?\bFK (\S+) ([\pL_0-9]+)\.([\pL_0-9]+)$`)

// oneLine is a text as a single-line comment shows it.
func oneLine(s string) string { return strings.Join(strings.Fields(s), " ") }

func checkQuickdbd(e *Env, c *Case) *Outcome {
	o := &Outcome{}
	schemaLabels(o, c.Schema)
	dir, done := e.Scratch()
	defer done()
	in, out := filepath.Join(dir, "in.json"), filepath.Join(dir, "out.txt")
	write(in, c.Schema.JSON())
	r := e.RunOct(dir, "export", "quickdbd", "--input", in, "--output", out)
	if !r.OK() {
		o.failf("export of a valid schema failed: %s", r.Brief())
		return o
	}
	if !exists(out) {
		o.failf("no output file")
		return o
	}
	text := read(out)
	if err := quickdbdText(c, text); err != nil {
		o.failf("%v\n%s", err, clip(text, 2500))
	}
	return o
}

func quickdbdText(c *Case, text string) error {
	want := c.Schema.Normalize()
	var blocks [][]string
	var cur []string
	for _, l := range append(strings.Split(text, "\n"), "") {
		l = strings.TrimRight(l, " \r")
		if l == "" {
			if cur != nil {
				blocks = append(blocks, cur)
			}
			cur = nil
			continue
		}
		cur = append(cur, l)
	}
	cut := func(l string) (string, string) {
		if i := strings.Index(l, "#"); i >= 0 {
			return strings.TrimSpace(l[:i]), oneLine(l[i+1:])
		}
		return strings.TrimSpace(l), ""
	}
	if len(blocks) != len(want.Tables) {
		return fmt.Errorf("%d tables, expected %d", len(blocks), len(want.Tables))
	}
	var refs []diaRef
	for i, tb := range want.Tables {
		b := blocks[i]
		name, desc := cut(b[0])
		if name != tb.Name || desc != oneLine(tb.Desc) {
			return fmt.Errorf("table head %q, expected %s # %s", b[0], tb.Name, tb.Desc)
		}
		if len(b) < 2 || strings.Trim(b[1], "-") != "" {
			return fmt.Errorf("no line of dashes below %q", b[0])
		}
		b = b[2:]
		if len(b) != len(tb.Columns) {
			return fmt.Errorf("%s has %d columns, expected %d", tb.Name, len(b), len(tb.Columns))
		}
		for k, x := range tb.Columns {
			def, desc := cut(b[k])
			bad := func(s string) error {
				return fmt.Errorf("%s: %s in line %q for %s %s (%s)", tb.Name, s, b[k], x.Name, sizedType(x), strconv.Quote(x.Default))
			}
			if desc != oneLine(x.Desc) {
				return bad("comment")
			}
			if m := qdFK.FindStringSubmatch(def); m != nil {
				if qdRel[m[2]] == "" {
					return bad("relationship")
				}
				refs = append(refs, diaRef{tb.Name, x.Name, qdRel[m[2]], m[3], m[4]})
				def = m[1]
			}
			// the default is the last part
			d, hasDef := "", false
			if m := strings.Index(def, " default="); m >= 0 {
				d, def, hasDef = strings.TrimSpace(def[m+9:]), def[:m], true
			}
			v, _ := splitFn(x.Default)
			if hasDef != (x.Default != "") || hasDef && d != oneLine2(v) && d != strconv.Quote(oneLine2(v)) && d != "'"+oneLine2(v)+"'" {
				return bad("default")
			}
			f := strings.Fields(def)
			if len(f) < 2 || f[0] != x.Name || f[1] != x.Type && f[1] != sizedType(x) {
				return bad("name or type")
			}
			flags := map[string]int{}
			for _, w := range f[2:] {
				flags[w]++
			}
			wf := map[string]int{}
			for w, on := range map[string]bool{"PK": x.PK, "UNIQUE": x.Unique, "AUTOINCREMENT": x.AutoInc, "NULLABLE": !x.NotNull} {
				if on {
					wf[w] = 1
				}
			}
			if fmt.Sprint(flags) != fmt.Sprint(wf) {
				return bad(fmt.Sprintf("flags %v, expected %v,", flags, wf))
			}
		}
	}
	return sameRefs(refs, wantRefs(want))
}

// oneLine2 is the default value as it stands on one line.
func oneLine2(s string) string {
	return strings.TrimSpace(strings.NewReplacer("\r\n", " ", "\n", " ", "\r", " ").Replace(s))
}

func init() {
	register(&Property{
		ID: "C17", Title: "DBML export", Quick: 8000, Rule: schemaRule, Trivial: trivialSchema,
		Scenarios: []*Scenario{{Name: "dbml", Weight: 1, Gen: genDBML, Check: checkDBML}},
		Assume:    []string{"names are letters, digits and underscores"},
	})
	register(&Property{
		ID: "C18", Title: "PlantUML diagram", Quick: 8000, Rule: schemaRule, Trivial: trivialSchema,
		Scenarios: []*Scenario{{Name: "plantuml", Weight: 1, Gen: genPlantuml, Check: checkPlantuml}},
		Assume:    []string{"names are letters, digits and underscores", "references point to tables of the schema"},
	})
	register(&Property{
		ID: "C19", Title: "QuickDBD export", Quick: 8000, Rule: schemaRule, Trivial: trivialSchema,
		Scenarios: []*Scenario{{Name: "quickdbd", Weight: 1, Gen: genQuickdbd, Check: checkQuickdbd}},
		Assume:    []string{"names are letters, digits and underscores", "references point to tables of the schema", "defaults have no comment sign, which the format cannot quote"},
	})
}
