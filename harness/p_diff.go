package main

// C11: the markdown diff.  C24: the flyway (MySQL) diff.

import (
	"fmt"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

func diffSchemaOpt() SchemaOpt {
	so := lbSchemaOpt()
	so.TableText, so.ColText, so.StringDefault, so.ValueText = TextQuotes, TextQuotes, TextQuotes, TextPlain
	so.NoAutoIncRequired = true
	return so
}

func diffOpts(t *rapid.T, c *Case) {
	if chance(t, 20, "useGroups") {
		c.Opts["groups"] = pick(t, []string{"a", "b", "a,b", "nosuchgroup"}, "groups")
	}
	drawOpt(t, c.Opts, "suffix", 30, "_uq")
	drawOpt(t, c.Opts, "comments", 50, "1")
}

func genMdEdits(t *rapid.T) *Case {
	so := diffSchemaOpt()
	s := genSchema(t, so)
	eo := EditOpt{SO: so, MaxEdits: 9, AnyPlace: true, FnSwap: true}
	eo.SO.Aliases = false
	to, log := editSchema(t, s.Normalize(), eo)
	c := &Case{Schema: s, Schema2: to, Opts: map[string]string{}, List: log}
	to.Version = pick(t, []string{"", "1.0.0", "9", "v10"}, "toVersion")
	if chance(t, 25, "shuffleTo") {
		to.Tables = rapid.Permutation(to.Tables).Draw(t, "perm")
	}
	diffOpts(t, c)
	return c
}

func genMdPair(t *rapid.T) *Case {
	so := diffSchemaOpt()
	so.TableName = NameOpt{Pool: []string{"user", "item", "tag", "city"}}
	so.ColName = NameOpt{Pool: []string{"id", "name", "user_id", "x", "data", "note", "status"}}
	so.MaxTables, so.MaxCols = 3, 4
	if rapid.Bool().Draw(t, "fewTypes") { // makes renames likely
		so.Types = []string{"int64", "varchar"}
		so.Sizes, so.Defaults = false, false
		so.ColText, so.TableText = TextNone, TextNone
	}
	c := &Case{Schema: genSchema(t, so), Schema2: genSchema(t, so), Opts: map[string]string{}}
	diffOpts(t, c)
	return c
}

func genMdSelf(t *rapid.T) *Case {
	s := genSchema(t, diffSchemaOpt())
	to := s.Clone()
	to.Tables = rapid.Permutation(to.Tables).Draw(t, "perm")
	c := &Case{Schema: s, Schema2: to, Opts: map[string]string{"self": "1"}}
	diffOpts(t, c)
	return c
}

type mdSection struct {
	name  string
	lines []string
}

// readMd splits the report into its sections.
func readMd(text, from, to string) ([]*mdSection, error) {
	lines := strings.Split(text, "\n")
	head := []string{"# DB Schema changes", "* from: `" + from + "`", "* to: `" + to + "`"}
	var secs []*mdSection
	for _, l := range lines {
		switch {
		case strings.TrimSpace(l) == "":
		case len(head) > 0:
			if l != head[0] {
				return nil, fmt.Errorf("line %q where %q is expected", l, head[0])
			}
			head = head[1:]
		case strings.HasPrefix(l, "## "):
			secs = append(secs, &mdSection{name: l[3:]})
		case strings.HasPrefix(l, "* ") && len(secs) > 0:
			s := secs[len(secs)-1]
			s.lines = append(s.lines, l[2:])
		default:
			return nil, fmt.Errorf("unexpected line %q", l)
		}
	}
	if len(head) > 0 {
		return nil, fmt.Errorf("the line %q is missing", head[0])
	}
	seen := map[string]bool{}
	for i, s := range secs {
		if seen[s.name] {
			return nil, fmt.Errorf("two sections for table %q", s.name)
		}
		seen[s.name] = true
		if i > 0 && secs[i-1].name > s.name {
			return nil, fmt.Errorf("section %q comes after %q", s.name, secs[i-1].name)
		}
		if len(s.lines) == 0 {
			return nil, fmt.Errorf("section %q is empty", s.name)
		}
	}
	return secs, nil
}

func mdNames(cols []*Col) string {
	var r []string
	for _, c := range cols {
		r = append(r, c.Name)
	}
	sort.Strings(r)
	return "[" + strings.Join(r, ", ") + "]"
}

func mdType(c *Col) string {
	switch {
	case c.Size == 0:
		return c.Type
	case c.Scale == 0:
		return fmt.Sprintf("%s(%d)", c.Type, c.Size)
	}
	return fmt.Sprintf("%s(%d,%d)", c.Type, c.Size, c.Scale)
}

// mdColumn: the lines for a column that is in both tables.
func mdColumn(a, b *Col, comments bool) []string {
	var r []string
	n := "`" + b.Name + "`"
	if a.Type != b.Type || a.Size != b.Size || a.Scale != b.Scale {
		r = append(r, fmt.Sprintf("change column type: %s :`%s` → `%s`", n, mdType(a), mdType(b)))
	}
	if comments && a.Desc != b.Desc {
		r = append(r, fmt.Sprintf("update column comment: %s :`%s`", n, b.Desc))
	}
	if a.NotNull != b.NotNull {
		r = append(r, map[bool]string{true: "set not null: ", false: "set nullable: "}[b.NotNull]+n)
	}
	if a.AutoInc != b.AutoInc {
		r = append(r, map[bool]string{true: "set auto incremental: ", false: "remove auto incremental: "}[b.AutoInc]+n)
	}
	if a.Default != b.Default {
		if b.Default == "" {
			r = append(r, "remove default value: "+n)
		} else {
			r = append(r, fmt.Sprintf("update default value: %s : `%s`", n, b.Default))
		}
	}
	return r
}

// takeRenames splits off the lines with the given prefix that read `a` → `b`.
func takeRenames(lines []string, prefix string) (rest []string, ren [][2]string, err error) {
	for _, l := range lines {
		if !strings.HasPrefix(l, prefix) {
			rest = append(rest, l)
			continue
		}
		p := strings.Split(strings.TrimPrefix(l, prefix), " → ")
		if len(p) != 2 || len(p[0]) < 3 || len(p[1]) < 3 {
			return nil, nil, fmt.Errorf("cannot read %q", l)
		}
		ren = append(ren, [2]string{strings.Trim(p[0], "`"), strings.Trim(p[1], "`")})
	}
	return rest, ren, nil
}

func sameLines(want, got []string) error {
	w, g := append([]string{}, want...), append([]string{}, got...)
	sort.Strings(w)
	sort.Strings(g)
	if len(w)+len(g) > 0 && !reflect.DeepEqual(w, g) {
		return fmt.Errorf("reported %q, expected %q", g, w)
	}
	return nil
}

// checkMdTable: the lines of one table that is in both schemas.
func checkMdTable(a, b *Table, lines []string, comments bool) error {
	lines, ren, err := takeRenames(lines, "rename column: ")
	if err != nil {
		return err
	}
	var removed, added []string
	for _, c := range a.Columns {
		if b.Col(c.Name) == nil {
			removed = append(removed, c.Name)
		}
	}
	for _, c := range b.Columns {
		if a.Col(c.Name) == nil {
			added = append(added, c.Name)
		}
	}
	if err := matchRenames(removed, added, ren, func(o, n string) bool { return renamedCol(a.Col(o), b.Col(n), comments) }); err != nil {
		return err
	}
	out, in := map[string]bool{}, map[string]bool{}
	for _, r := range ren {
		out[r[0]], in[r[1]] = true, true
	}
	var want []string
	if comments && a.Desc != b.Desc {
		want = append(want, "update table comment: `"+b.Desc+"`")
	}
	for _, n := range removed {
		if !out[n] {
			want = append(want, "drop column: `"+n+"`")
		}
	}
	for _, n := range added {
		if !in[n] {
			want = append(want, "add column: `"+n+"`")
		}
	}
	for _, c := range b.Columns {
		if x := a.Col(c.Name); x != nil {
			want = append(want, mdColumn(x, c, comments)...)
		}
	}
	if x, y := mdNames(a.PKs()), mdNames(b.PKs()); x != y {
		want = append(want, "update PK: "+x+" → "+y)
	}
	if x, y := mdNames(a.Uniques()), mdNames(b.Uniques()); x != y {
		if x != "[]" {
			want = append(want, "drop unique constraint: "+x)
		}
		if y != "[]" {
			want = append(want, "create unique constraint: "+y)
		}
	}
	return sameLines(want, lines)
}

func checkMd(from, final *Schema, groups []string, secs []*mdSection, comments bool) error {
	by := map[string]*mdSection{}
	for _, s := range secs {
		by[s.name] = s
	}
	lines := func(n string) []string {
		if s := by[n]; s != nil {
			return s.lines
		}
		return nil
	}
	var removed, added []string
	var ren [][2]string
	for _, tb := range from.Tables {
		if final.Table(tb.Name) == nil {
			removed = append(removed, tb.Name)
			_, r, err := takeRenames(lines(tb.Name), "rename table ")
			if err != nil {
				return err
			}
			if len(r) > 1 || len(r) == 1 && r[0][0] != tb.Name {
				return fmt.Errorf("table %q: renames %v", tb.Name, r)
			}
			ren = append(ren, r...)
		}
	}
	for _, tb := range final.Tables {
		if from.Table(tb.Name) == nil {
			added = append(added, tb.Name)
		}
	}
	if err := matchRenames(removed, added, ren, func(a, b string) bool { return sameCols(from.Table(a), final.Table(b)) }); err != nil {
		return fmt.Errorf("tables: %v", err)
	}
	want := map[string][]string{}
	out, in := map[string]bool{}, map[string]bool{}
	for _, r := range ren {
		a, b := from.Table(r[0]), final.Table(r[1])
		out[r[0]], in[r[1]] = true, true
		want[a.Name] = append(want[a.Name], fmt.Sprintf("rename table `%s` → `%s`", a.Name, b.Name))
		if u := a.Uniques(); len(u) > 0 {
			want[a.Name] = append(want[a.Name], "drop unique constraint: "+mdNames(u))
			want[b.Name] = append(want[b.Name], "create unique constraint: "+mdNames(u))
		}
		if comments && a.Desc != b.Desc {
			want[b.Name] = append(want[b.Name], "update table comment: `"+b.Desc+"`")
		}
	}
	for _, n := range removed {
		if !out[n] {
			want[n] = append(want[n], "drop table")
		}
	}
	for _, n := range added {
		if !in[n] {
			want[n] = append(want[n], "create table")
		}
	}
	known := map[string]bool{}
	for _, tb := range append(append([]*Table{}, from.Tables...), final.Tables...) {
		if known[tb.Name] {
			continue
		}
		known[tb.Name] = true
		a, b := from.Table(tb.Name), final.Table(tb.Name)
		var err error
		if a != nil && b != nil {
			err = checkMdTable(a, b, lines(tb.Name), comments)
		} else {
			err = sameLines(want[tb.Name], lines(tb.Name))
		}
		if err != nil {
			return fmt.Errorf("table %q: %v", tb.Name, err)
		}
	}
	for _, s := range secs {
		if !known[s.name] {
			return fmt.Errorf("there is a section for %q, which is no table", s.name)
		}
	}
	return nil
}

// runDiff runs a diff twice and returns the output.
func runDiff(e *Env, o *Outcome, c *Case, kind string) (string, bool) {
	dir, done := e.Scratch()
	defer done()
	f1, f2, out := filepath.Join(dir, "from.json"), filepath.Join(dir, "to.json"), filepath.Join(dir, "out")
	write(f1, c.Schema.JSON())
	write(f2, c.Schema2.JSON())
	args := append([]string{"diff", kind, "--from", f1, "--to", f2, "--output", out}, lbArgs(c)...)
	r := e.RunOct(dir, args...)
	if !r.OK() {
		o.failf("diff of valid schemas failed: %s", r.Brief())
		return "", false
	}
	text := read(out)
	e.RunOct(dir, args...)
	if again := read(out); again != text {
		o.failf("two runs of the same diff differ:\n%s\n--- and\n%s", clip(text, 1500), clip(again, 1500))
		return "", false
	}
	return text, true
}

func checkMarkdown(e *Env, c *Case) *Outcome {
	o := &Outcome{}
	for _, l := range c.List {
		o.label("edit-" + strings.Fields(l)[0])
	}
	text, ok := runDiff(e, o, c, "md")
	if !ok {
		return o
	}
	secs, err := readMd(text, c.Schema.Version, c.Schema2.Version)
	if err != nil {
		o.failf("%v\n%s", err, clip(text, 2000))
		return o
	}
	if len(secs) > 0 {
		o.label("changes")
		if c.flag("self") {
			o.failf("the diff of a schema with itself is not empty:\n%s", clip(text, 2000))
		}
	}
	from, to := c.Schema.Normalize(), c.Schema2.Normalize()
	groups := splitGroups(c.opt("groups"))
	if err := checkMd(from, expectedAfter(from, to, groups), groups, secs, c.flag("comments")); err != nil {
		o.failf("%v\n%s", err, clip(text, 2000))
	}
	return o
}

// ---- C24

func genFlyway(t *rapid.T) *Case {
	so := mysqlSchemaOpt()
	so.MaxTables = 5
	so.Aliases = false
	so.Refs = false
	base := so
	base.UniquePct = 0
	s := genSchema(t, base)
	not := strSet("dropColumn", "renameColumn", "replaceColumn", "default", "unique", "type", "desc", "tableDesc")
	eo := EditOpt{SO: base, MaxEdits: 8, AnyPlace: true, NotIn: not}
	to, log := editSchema(t, s, eo)
	// tables that are entirely new may have anything
	if chance(t, 50, "freshTable") {
		x := so
		x.MinTables, x.MaxTables = 1, 1
		nt := genSchema(t, x).Tables[0]
		nt.Name = freshName(t, so.TableName, func(n string) bool {
			for _, s := range []*Schema{s, to} {
				for _, tb := range s.Tables {
					if strings.EqualFold(tb.Name, n) {
						return true
					}
				}
			}
			return false
		}, "freshTableName")
		for k, ix := range nt.Indices {
			ix.Name = fmt.Sprintf("idx_%s_%d", strings.ToLower(nt.Name), k)
		}
		to.Tables = append(to.Tables, nt)
	}
	fixMysqlDomain(s)
	fixMysqlDomain(to)
	// a default lost on the way through auto-increment would be a change of default
	for _, tb := range s.Tables {
		if x := to.Table(tb.Name); x != nil {
			for _, c := range tb.Columns {
				if y := x.Col(c.Name); y != nil && !y.AutoInc {
					y.Default = c.Default
				}
			}
		}
	}
	c := &Case{Schema: s, Schema2: to, Opts: map[string]string{}, List: log}
	if chance(t, 20, "useGroups") {
		c.Opts["groups"] = pick(t, []string{"a", "b", "a,b", "nosuchgroup"}, "groups")
	}
	drawOpt(t, c.Opts, "suffix", 30, "_uq")
	return c
}

// applyAlter runs the statements of a flyway diff on the tables.
func applyAlter(src string, tables map[string]*vTable, touched map[string]bool) (err error) {
	toks, err := lexDDL(src)
	if err != nil {
		return err
	}
	p := &ddlParser{t: toks}
	defer func() {
		if r := recover(); r != nil {
			d, ok := r.(ddlErr)
			if !ok {
				panic(r)
			}
			err = fmt.Errorf("%s", d.msg)
		}
	}()
	get := func(n string) *vTable {
		touched[n] = true
		if tables[n] == nil {
			p.fail("table %q does not exist", n)
		}
		return tables[n]
	}
	for p.peek().kind != 'e' {
		nxt := p.t[min(p.i+1, len(p.t)-1)]
		switch strings.ToUpper(p.peek().v) {
		case "CREATE":
			t := p.createTable()
			if tables[t.Name] != nil {
				p.fail("table %q exists", t.Name)
			}
			tables[t.Name] = t
			touched[t.Name] = true
		case "DROP":
			p.must("DROP", "TABLE")
			n := p.ident()
			get(n)
			delete(tables, n)
			p.mustP(";")
		case "RENAME":
			p.must("RENAME", "TABLE")
			a := p.ident()
			t := get(a)
			p.must("TO")
			b := p.ident()
			if tables[b] != nil {
				p.fail("table %q exists", b)
			}
			delete(tables, a)
			t.Name = b
			tables[b] = t
			touched[b] = true
			p.mustP(";")
		case "ALTER":
			p.must("ALTER", "TABLE")
			t := get(p.ident())
			nxt = p.t[min(p.i+1, len(p.t)-1)]
			switch {
			case p.word("ADD"):
				if strings.EqualFold(nxt.v, "PRIMARY") && nxt.kind == 'i' {
					p.must("PRIMARY", "KEY")
					if len(t.PK) > 0 {
						p.fail("table %q has a primary key", t.Name)
					}
					t.PK = [][]string{p.identList()}
					break
				}
				p.word("COLUMN")
				x := &vTable{}
				p.definition(x)
				if len(x.Cols) != 1 {
					p.fail("no column added")
				}
				for _, c := range t.Cols {
					if strings.EqualFold(c.Name, x.Cols[0].Name) {
						p.fail("column %q exists", c.Name)
					}
				}
				t.Cols = append(t.Cols, x.Cols[0])
			case p.word("MODIFY"):
				p.word("COLUMN")
				x := &vTable{}
				p.definition(x)
				ok := false
				for i, c := range t.Cols {
					if len(x.Cols) == 1 && c.Name == x.Cols[0].Name {
						t.Cols[i], ok = x.Cols[0], true
					}
				}
				if !ok {
					p.fail("MODIFY of a column that does not exist")
				}
			case p.word("DROP"):
				p.must("PRIMARY", "KEY")
				if len(t.PK) == 0 {
					p.fail("table %q has no primary key", t.Name)
				}
				t.PK = nil
			default:
				p.fail("unknown ALTER TABLE action %q", p.peek().v)
			}
			p.mustP(";")
		default:
			p.fail("unknown statement %q", p.peek().v)
		}
	}
	for _, t := range tables {
		for _, pk := range t.PK {
			for _, n := range pk {
				ok := false
				for _, c := range t.Cols {
					ok = ok || c.Name == n
				}
				if !ok {
					return fmt.Errorf("primary key column %q of %q does not exist", n, t.Name)
				}
			}
		}
	}
	return nil
}

func sortedNames(cols []*Col) string {
	var r []string
	for _, c := range cols {
		r = append(r, c.Name)
	}
	sort.Strings(r)
	return strings.Join(r, "\x00")
}

func checkFlyway(e *Env, c *Case) *Outcome {
	o := &Outcome{}
	for _, l := range c.List {
		o.label("edit-" + strings.Fields(l)[0])
	}
	dir, done := e.Scratch()
	defer done()
	in, base := filepath.Join(dir, "from.json"), filepath.Join(dir, "from.sql")
	write(in, c.Schema.JSON())
	args := []string{"export", "mysql", "--input", in, "--output", base}
	if s := c.opt("suffix"); s != "" {
		args = append(args, "--uniqueNameSuffix", s)
	}
	if r := e.RunOct(dir, args...); !r.OK() {
		o.failf("export of the old schema failed: %s", r.Brief())
		return o
	}
	olds, err := parseDDL(read(base))
	if err != nil {
		o.failf("the exported old schema cannot be read: %v", err)
		return o
	}
	tables := map[string]*vTable{}
	for _, t := range olds {
		tables[t.Name] = t
	}
	text, ok := runDiff(e, o, c, "flyway")
	if !ok {
		return o
	}
	from, to := c.Schema.Normalize(), c.Schema2.Normalize()
	final := expectedAfter(from, to, splitGroups(c.opt("groups")))
	if !hasSpatial(from) && !hasSpatial(to) {
		if _, err := mysqlParse(text); err != nil && strings.TrimSpace(text) != "" {
			o.failf("the diff is not valid SQL: %v\n%s", err, clip(text, 2000))
			return o
		}
	}
	touched := map[string]bool{}
	if err := applyAlter(text, tables, touched); err != nil {
		o.failf("the diff cannot be applied to the old schema: %v\n%s", err, clip(text, 2000))
		return o
	}
	if len(touched) > 0 {
		o.label("changes")
	}
	for _, n := range sortedKeys(tables) {
		if final.Table(n) == nil {
			o.failf("table %q should not exist after the diff\n%s", n, clip(text, 2000))
		}
	}
	for _, tb := range final.Tables {
		v := tables[tb.Name]
		if v == nil {
			o.failf("table %q is missing after the diff\n%s", tb.Name, clip(text, 2000))
			return o
		}
		x, want := *v, *tb
		isOld := false
		for _, t := range olds {
			isOld = isOld || t == v
		}
		if isOld { // altered: columns are appended, keys compared as sets, indices are not part of the diff
			var cols []*Col
			if old := from.Table(tb.Name); old != nil {
				for _, c := range old.Columns {
					if y := tb.Col(c.Name); y != nil {
						cols = append(cols, y)
					}
				}
				for _, c := range tb.Columns {
					if old.Col(c.Name) == nil {
						cols = append(cols, c)
					}
				}
				want.Columns = cols
				if !touched[tb.Name] {
					o.label("untouched")
				} else if reflect.DeepEqual(old.Columns, tb.Columns) {
					o.failf("table %q did not change but is in the diff\n%s", tb.Name, clip(text, 2000))
				}
			}
			x.Index, want.Indices = nil, nil
			var pk []string
			for _, c := range want.PKs() {
				pk = append(pk, c.Name)
			}
			oldPK := ""
			if old := from.Table(tb.Name); old != nil {
				oldPK = sortedNames(old.PKs())
			} else {
				oldPK = sortedNames(tb.PKs())
			}
			if sortedNames(tb.PKs()) != oldPK { // a new key has the columns in the order the export gives it
				var npk []string
				for _, c := range tb.PKs() {
					npk = append(npk, c.Name)
				}
				if len(x.PK) == 1 && len(npk) > 1 && !reflect.DeepEqual(x.PK[0], npk) {
					o.failf("table %q: primary key %v, the new schema has %v\n%s", tb.Name, x.PK[0], npk, clip(text, 2000))
					return o
				}
			}
			if len(x.PK) == 1 {
				a, b := append([]string{}, pk...), append([]string{}, x.PK[0]...)
				sort.Strings(a)
				sort.Strings(b)
				if reflect.DeepEqual(a, b) {
					x.PK = [][]string{pk}
				}
			}
		}
		if err := checkDDLTable(&want, &x, c.opt("suffix")); err != nil {
			o.failf("the diff does not lead to the new schema: %v\n%s", err, clip(text, 2000))
			return o
		}
	}
	return o
}

func init() {
	register(&Property{
		ID: "C11", Title: "Markdown diff", Quick: 8000, Rule: diffRule, Trivial: trivialSchema,
		Scenarios: []*Scenario{
			{Name: "edits", Weight: 6, Gen: genMdEdits, Check: checkMarkdown},
			{Name: "pair", Weight: 3, Gen: genMdPair, Check: checkMarkdown},
			{Name: "self", Weight: 1, Gen: genMdSelf, Check: checkMarkdown},
		},
	})
	register(&Property{
		ID: "C24", Title: "Flyway diff", Quick: 8000, Rule: diffRule, Trivial: trivialSchema,
		Scenarios: []*Scenario{{Name: "edits", Weight: 1, Gen: genFlyway, Check: checkFlyway}},
	})
}
