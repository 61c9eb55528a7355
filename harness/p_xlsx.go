package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

var xlsxTypes = without(canonicalTypes, "enum", "set")

func xlsxSchemaOpt() SchemaOpt {
	return SchemaOpt{
		Types: xlsxTypes, MaxTables: 6,
		TableName: NameOpt{Upper: true, Awkward: true},
		ColName:   NameOpt{Upper: true, Awkward: true, Under: true},
		Groups:    []string{"", "a", "b2", "회원 관리", "A"},
		TableText: TextAny, ColText: TextAny, StringDefault: TextQuotes,
		Refs: true, Dangling: true, Indices: true, Sizes: true, OddSizes: true, Defaults: true, DefaultFn: true, OnUpdate: true, Meta: true,
		Aliases: true, ClassNames: true, NoPKPct: 15, MultiPKPct: 30, UniquePct: 25,
	}
}

// fixXlsxDomain keeps values inside what the attribute cell can carry.
func fixXlsxDomain(s *Schema) {
	for _, tb := range s.Tables {
		for _, c := range tb.Columns {
			c.Default = strings.TrimSpace(strings.ReplaceAll(c.Default, ",", ";"))
			c.OnUpdate = strings.TrimSpace(strings.ReplaceAll(c.OnUpdate, ",", ";"))
		}
	}
}

// blankName gives a column that nothing refers to a name of two words.
func blankName(t *rapid.T, s *Schema) {
	tb := pick(t, s.Tables, "blankNameTable")
	c := pick(t, tb.Columns, "blankNameCol")
	for _, x := range tb.Indices {
		for _, n := range x.Columns {
			if n == c.Name {
				return
			}
		}
	}
	for _, t2 := range s.Tables {
		for _, c2 := range t2.Columns {
			if c2.Ref != nil && c2.Ref.Table == tb.Name && c2.Ref.Column == c.Name {
				return
			}
		}
	}
	n := c.Name + pick(t, []string{" no", " x y", "  z"}, "blankNameTail")
	if tb.Col(n) == nil {
		c.Name = n
	}
}

// xlsxModel: what the sheets can carry of a schema.
func xlsxModel(s *Schema) *Schema {
	r := s.Normalize()
	for _, tb := range r.Tables {
		if tb.Group == "" {
			tb.Group = "Common"
		}
		tb.Desc = strings.TrimSpace(tb.Desc)
		for _, c := range tb.Columns {
			c.Desc = strings.TrimSpace(c.Desc)
			if c.PK {
				c.Unique = false
			}
		}
	}
	return r.Sorted()
}

func genXlsxRound(t *rapid.T) *Case {
	s := genSchema(t, xlsxSchemaOpt())
	if chance(t, 8, "indexTwins") {
		indexTwin(t, s)
	}
	if chance(t, 6, "caseTwin") {
		caseTwin(t, s)
	}
	fixXlsxDomain(s)
	if chance(t, 6, "blankName") {
		blankName(t, s)
	}
	c := &Case{Schema: s, Opts: map[string]string{}}
	drawOpt(t, c.Opts, "null", 50, "1")
	return c
}

var refPrefix = map[string]string{"n:1": ">", "1:n": "<", "1:1": "-"}

// checkLayout compares the sheets with the documented layout, row by row.
func checkLayout(s *Schema, bk *Book, null bool) error {
	want := s.Normalize()
	meta := bk.Sheet("Meta")
	if meta == nil {
		return fmt.Errorf("no Meta sheet")
	}
	kv := map[string]string{}
	for i := range meta.Rows {
		kv[meta.cell(i, 0)] = meta.cell(i, 1)
	}
	if kv["author"] != s.Author || kv["name"] != s.Name || kv["version"] != s.Version {
		return fmt.Errorf("meta sheet %q", kv)
	}
	groups := map[string][]*Table{}
	for _, tb := range want.Tables {
		g := tb.Group
		if g == "" {
			g = "Common"
		}
		groups[g] = append(groups[g], tb)
	}
	if len(bk.Sheets) != len(groups)+1 {
		return fmt.Errorf("%d sheets for %d groups", len(bk.Sheets), len(groups))
	}
	for g, tables := range groups {
		sh := bk.Sheet(g)
		if sh == nil {
			return fmt.Errorf("no sheet %q", g)
		}
		hdr := "not null"
		if null {
			hdr = "nullable"
		}
		row := func(i int) string {
			var r []string
			for c := 0; c < 7; c++ {
				r = append(r, strings.TrimSpace(sh.cell(i, c)))
			}
			return fmt.Sprintf("%q", r)
		}
		q := func(s ...string) string { return fmt.Sprintf("%q", s) }
		var exp []string
		exp = append(exp, q("table/ref.", "column", "type", "key", hdr, "attributes", "description"))
		for _, tb := range tables {
			cls := ""
			if tb.ClassName != "" {
				cls = "class=" + tb.ClassName
			}
			exp = append(exp, q(tb.Name, "", "table", "", "", cls, strings.TrimSpace(tb.Desc)))
			for _, c := range tb.Columns {
				ref := ""
				if c.Ref != nil {
					ref = refPrefix[c.Ref.Relationship] + c.Ref.Table + "." + c.Ref.Column
				}
				typ := c.Type
				if c.Size > 0 && c.Scale > 0 {
					typ = fmt.Sprintf("%s(%d,%d)", typ, c.Size, c.Scale)
				} else if c.Size > 0 {
					typ = fmt.Sprintf("%s(%d)", typ, c.Size)
				}
				key := ""
				if c.PK {
					key = "P"
				} else if c.Unique {
					key = "U"
				}
				mark := ""
				if c.NotNull != null {
					mark = "O"
				}
				var at []string
				if c.AutoInc {
					at = append(at, "autoInc")
				}
				if c.Default != "" {
					at = append(at, "default="+c.Default)
				}
				if c.OnUpdate != "" {
					at = append(at, "onUpdate="+c.OnUpdate)
				}
				exp = append(exp, q(ref, c.Name, typ, key, mark, strings.Join(at, ", "), strings.TrimSpace(c.Desc)))
			}
			for _, x := range tb.Indices {
				for _, col := range x.Columns {
					exp = append(exp, q(x.Name, col, "", "I", "", "", ""))
				}
			}
		}
		var got []string
		blank := q("", "", "", "", "", "", "")
		for i := range sh.Rows {
			if r := row(i); r != blank {
				got = append(got, r)
			}
		}
		for i := 0; i < len(exp) || i < len(got); i++ {
			a, b := "<end>", "<end>"
			if i < len(exp) {
				a = exp[i]
			}
			if i < len(got) {
				b = got[i]
			}
			if a != b {
				return fmt.Errorf("sheet %q row %d: want %s, got %s", g, i+1, a, b)
			}
		}
	}
	return nil
}

func checkXlsxRound(e *Env, c *Case) *Outcome {
	o := &Outcome{}
	schemaLabels(o, c.Schema)
	dir, done := e.Scratch()
	defer done()
	in, book, back := filepath.Join(dir, "in.json"), filepath.Join(dir, "t.xlsx"), filepath.Join(dir, "back.json")
	write(in, c.Schema.JSON())
	args := []string{"export", "xlsx", "--input", in, "--output", book}
	if c.flag("null") {
		args = append(args, "--useNullColumn")
	}
	if r := e.RunOct(dir, args...); !r.OK() {
		o.failf("export of a valid schema failed: %s", r.Brief())
		return o
	}
	bk, err := readBook([]byte(read(book)))
	if err != nil {
		o.failf("exported workbook cannot be read: %v", err)
		return o
	}
	if err := checkLayout(c.Schema, bk, c.flag("null")); err != nil {
		o.failf("exported workbook is not the documented layout: %v", err)
		return o
	}
	if r := e.RunOct(dir, "import", "xlsx", "--input", book, "--output", back); !r.OK() {
		o.failf("import of the exported workbook failed: %s", r.Brief())
		return o
	}
	got, err := ParseSchema([]byte(read(back)))
	if err != nil {
		o.failf("imported file is not an octopus schema: %v", err)
		return o
	}
	if d := diffSchemas(xlsxModel(c.Schema), got); d != "" {
		o.failf("export then import changed the schema: %s", d)
	}
	return o
}

// ---- import of documented workbooks

func genXlsxImport(t *rapid.T) *Case {
	so := xlsxSchemaOpt()
	so.Aliases = false
	so.Groups = []string{"Common", "a", "회원 관리", "A"}
	so.TableText, so.ColText = TextAny, TextAny
	s := genSchema(t, so)
	if chance(t, 8, "indexTwins") {
		indexTwin(t, s)
	}
	if chance(t, 6, "caseTwin") {
		caseTwin(t, s)
	}
	if chance(t, 6, "blankName") {
		blankName(t, s)
	}
	fixXlsxDomain(s)
	bk := &Book{Shared: rapid.Bool().Draw(t, "shared"), Sparse: rapid.Bool().Draw(t, "sparse")}
	pad := func(v string) string {
		if v != "" && chance(t, 8, "pad") {
			return pick(t, []string{" " + v, v + " ", "  " + v + " "}, "padv")
		}
		return v
	}
	want := s.Clone()
	exp := xlsxModel(s)
	type grp struct {
		name string
		tb   []*Table
	}
	var gs []*grp
	for _, g := range want.Groups() {
		x := &grp{name: g}
		for _, tb := range want.Tables {
			if tb.Group == g {
				x.tb = append(x.tb, tb)
			}
		}
		gs = append(gs, x)
	}
	for _, g := range gs {
		null := rapid.Bool().Draw(t, "nullHeader")
		hdr := "not null"
		if null {
			hdr = "nullable"
		}
		sh := &Sheet{Name: g.name}
		row := func(v ...string) {
			for i := range v {
				v[i] = pad(v[i])
			}
			sh.Rows = append(sh.Rows, v)
		}
		blank := func(pct int) {
			for k := 0; k < 2 && chance(t, pct, "blankRow"); k++ {
				sh.Rows = append(sh.Rows, pick(t, [][]string{nil, {"", "", "", "", "", "", ""}, {" "}}, "blank"))
			}
		}
		row("table/ref.", "column", "type", "key", hdr, "attributes", "description")
		blank(15)
		for ti, tb := range g.tb {
			if ti > 0 {
				blank(60)
			}
			cls := ""
			if tb.ClassName != "" {
				cls = "class=" + tb.ClassName
				if chance(t, 8, "otherTableAttr") {
					cls = pick(t, []string{cls + ", note", "owner=me," + cls, cls + ",x=1"}, "clsAttr")
				}
			}
			row(tb.Name, "", "table", "", "", cls, tb.Desc)
			var idx [][]string
			for _, x := range tb.Indices {
				for _, col := range x.Columns {
					idx = append(idx, []string{x.Name, col, "", "I", "", "", ""})
				}
			}
			for _, c := range tb.Columns {
				ref := ""
				if c.Ref != nil {
					p := refPrefix[c.Ref.Relationship]
					if c.Ref.Relationship == "n:1" && chance(t, 20, "noPrefix") {
						p = ""
					}
					if p != "" && chance(t, 15, "refBlank") {
						p += pick(t, []string{" ", "  "}, "refBlanks")
					}
					ref = p + c.Ref.Table + "." + c.Ref.Column
				}
				typ := c.Type
				if c.Size > 0 && c.Scale > 0 {
					typ = fmt.Sprintf("%s(%d%s%d)", typ, c.Size, pick(t, []string{",", ", ", " , "}, "sep"), c.Scale)
				} else if c.Size > 0 {
					typ = fmt.Sprintf("%s(%d)", typ, c.Size)
				}
				if chance(t, 15, "alias") {
					typ = aliasSpelling(t, c.Type) + typ[len(c.Type):]
				}
				key := ""
				if c.PK {
					key = "P"
				} else if c.Unique {
					key = "U"
				}
				mark := pick(t, []string{"", "", "", "", " "}, "unmarked")
				if c.NotNull != null {
					mark = "O"
				}
				var at []string
				if c.AutoInc {
					at = append(at, pick(t, []string{"autoinc", "autoInc"}, "ai"))
				}
				if c.Default != "" {
					at = append(at, "default="+c.Default)
				}
				if c.OnUpdate != "" {
					at = append(at, "onUpdate="+c.OnUpdate)
				}
				if len(at) > 1 && rapid.Bool().Draw(t, "rev") {
					at[0], at[len(at)-1] = at[len(at)-1], at[0]
				}
				row(ref, c.Name, typ, key, mark, strings.Join(at, pick(t, []string{",", ", ", " , "}, "asep")), c.Desc)
				blank(4)
			}
			if len(tb.Indices) > 1 && rapid.Bool().Draw(t, "interleave") {
				// rows of several indices mixed; each keeps its own column order
				sort.SliceStable(idx, func(i, j int) bool { return idx[i][1] < idx[j][1] })
				byName := map[string][]string{}
				for _, r := range idx {
					byName[r[0]] = append(byName[r[0]], r[1])
				}
				et := exp.Table(tb.Name)
				var order []*Index
				seen := map[string]bool{}
				for _, r := range idx {
					if !seen[r[0]] {
						seen[r[0]] = true
						order = append(order, &Index{r[0], byName[r[0]]})
					}
				}
				et.Indices = order
			}
			for _, r := range idx {
				row(r...)
			}
		}
		bk.Sheets = append(bk.Sheets, sh)
	}
	switch rapid.IntRange(0, 3).Draw(t, "meta") {
	case 0:
		exp.Author, exp.Name, exp.Version = "", "", ""
	case 1:
		bk.Sheets = append(bk.Sheets, &Sheet{Name: "Meta", Rows: [][]string{{"version", s.Version}, {"author", s.Author}, {"name", s.Name}}})
	case 2:
		bk.Sheets = append(bk.Sheets, &Sheet{Name: "Meta", Rows: [][]string{{"note", "x"}, {"name", s.Name}, {"version"}}})
		exp.Author, exp.Version = "", ""
	default:
		bk.Sheets = append([]*Sheet{{Name: "Meta", Rows: [][]string{{"author", s.Author}, {"name", s.Name}, {"version", s.Version}}}}, bk.Sheets...)
	}
	if chance(t, 15, "emptySheet") {
		bk.Sheets = append(bk.Sheets, &Sheet{Name: "empty one", Rows: pick(t, [][][]string{nil, {{"table/ref.", "column", "type", "key", "not null", "attributes", "description"}}}, "esheet")})
	}
	return &Case{Schema: exp, Book: bk}
}

func checkXlsxImport(e *Env, c *Case) *Outcome {
	o := &Outcome{}
	schemaLabels(o, c.Schema)
	dir, done := e.Scratch()
	defer done()
	book, back := filepath.Join(dir, "t.xlsx"), filepath.Join(dir, "back.json")
	write(book, c.Book.Bytes())
	if r := e.RunOct(dir, "import", "xlsx", "--input", book, "--output", back); !r.OK() {
		o.failf("import of a documented workbook failed: %s", r.Brief())
		return o
	}
	got, err := ParseSchema([]byte(read(back)))
	if err != nil {
		o.failf("imported file is not an octopus schema: %v", err)
		return o
	}
	if d := diffSchemas(c.Schema, got); d != "" {
		o.failf("the imported schema is not what the workbook says: %s", d)
	}
	return o
}

func init() {
	register(&Property{
		ID: "C05", Title: "xlsx round trip", Quick: 6000, Rule: schemaRule, Trivial: trivialSchema,
		Scenarios: []*Scenario{{Name: "roundtrip", Weight: 1, Gen: genXlsxRound, Check: checkXlsxRound}},
	})
	register(&Property{
		ID: "C06", Title: "xlsx import", Quick: 6000, Rule: schemaRule, Trivial: trivialSchema,
		Scenarios: []*Scenario{{Name: "import", Weight: 1, Gen: genXlsxImport, Check: checkXlsxImport}},
	})
}
