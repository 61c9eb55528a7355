package main

// Shared generators of schemas.  Everything random is drawn through rapid.

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

func chance(t *rapid.T, pct int, label string) bool {
	// drawn so that shrinking goes towards "no"
	return rapid.IntRange(0, 99).Draw(t, label) >= 100-pct
}

func pick[T any](t *rapid.T, xs []T, label string) T {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(t, label)]
}

var lexicon = []string{
	"id", "name", "user", "users", "member", "company", "item", "product", "category", "categories", "city", "status", "bus",
	"created_at", "updated_at", "deleted_at", "email", "title", "body", "price", "amount", "account", "team", "role_info",
	"address", "addr", "note", "memo", "phone_no", "is_active", "url", "api_key", "http_url", "user_id", "uuid", "x", "y2", "data",
	"line_1", "address2", "news", "person", "people", "children", "child", "tag", "tag_map", "log_entry", "visit", "score", "rate",
}

// reserved words of the target languages that are ordinary SQL column names
var awkward = []string{
	"class", "type", "order", "group", "value", "func", "range", "from", "import", "in", "is", "object", "package", "fun",
	"val", "def", "pass", "lambda", "default", "key", "index", "interface", "map", "string", "select", "as", "break", "continue",
	"do", "else", "false", "for", "if", "null", "return", "super", "this", "throw", "true", "try", "typealias", "typeof",
	"var", "when", "while", "and", "assert", "async", "await", "del", "elif", "except", "finally", "global", "nonlocal", "not",
	"or", "raise", "with", "yield", "none", "match", "case", "print", "self", "chan", "const", "defer", "fallthrough", "go",
	"goto", "struct", "switch", "error", "nil", "len", "make", "new", "append", "int", "int64", "bool", "byte", "float64",
	"message", "enum", "oneof", "repeated", "optional", "required", "reserved", "option", "syntax", "service", "rpc", "query", "mutation", "subscription",
	"input", "union", "scalar", "id", "table", "column", "ref", "note", "project", "primary", "unique", "metadata", "base", "entity",
	"data", "open", "internal", "private", "public", "constructor", "init", "it", "field",
	"createdAt", "updatedAt", "CREATED_AT", "UPDATED_AT",
}

type NameOpt struct {
	Awkward bool
	Upper   bool // also UPPER_CASE and camelCase names
	Filter  func(string) bool
	Under   bool     // leading, trailing or doubled underscores
	Pool    []string // draw from these names only
}

func genName(o NameOpt) *rapid.Generator[string] {
	if o.Pool != nil {
		return rapid.SampledFrom(o.Pool)
	}
	g := rapid.Custom(func(t *rapid.T) string {
		k := rapid.IntRange(0, 102).Draw(t, "style")
		base := pick(t, lexicon, "word")
		switch {
		case k >= 101: // long
			for n := rapid.IntRange(3, 7).Draw(t, "words"); n > 0 && len(base) < 45; n-- {
				base += "_" + pick(t, lexicon, "wordN")
			}
			if chance(t, 10, "longest") { // as long as MySQL allows
				base = (base + strings.Repeat("_longest", 8))[:63] + "z"
			}
			return base
		case k < 45:
			return base
		case k < 65:
			return base + "_" + pick(t, lexicon, "word2")
		case k < 72:
			return base + rapid.StringMatching(`_?[0-9]{1,2}`).Draw(t, "num")
		case k == 72:
			return pick(t, []string{"u_id", "i_p", "x_m_l", "c_p_u_load", "base_u_r_l", "a_b", "x_id", "is_a", "q_a_x", "h_t_t_p_code"}, "initials")
		case k < 84:
			return rapid.StringMatching(`[a-z][a-z0-9]{0,6}(_[a-z][a-z0-9]{0,5}){0,2}`).Draw(t, "rnd")
		case k < 90:
			if o.Awkward {
				w := pick(t, awkward, "awk")
				if o.Upper && chance(t, 30, "awkCase") {
					return pick(t, []string{strings.ToUpper(w), strings.ToUpper(w[:1]) + w[1:]}, "awkUp")
				}
				return w
			}
			return base
		case k < 96:
			if o.Upper {
				w := base + "_" + pick(t, lexicon, "word2")
				if rapid.Bool().Draw(t, "camel") {
					parts := strings.Split(w, "_")
					for i := range parts {
						if i > 0 && parts[i] != "" {
							parts[i] = strings.ToUpper(parts[i][:1]) + parts[i][1:]
						}
					}
					return strings.Join(parts, "")
				}
				return strings.ToUpper(w)
			}
			return base
		default:
			if o.Under {
				return pick(t, []string{"_" + base, base + "_", base + "__x"}, "und")
			}
			return base
		}
	})
	if o.Filter != nil {
		return g.Filter(o.Filter)
	}
	return g
}

// indexTwin makes the names of two indices of a table differ as little as possible.
func indexTwin(t *rapid.T, s *Schema) {
	for _, tb := range s.Tables {
		if len(tb.Indices) > 1 {
			n := tb.Indices[0].Name
			tb.Indices[1].Name = pick(t, []string{strings.ToUpper(n), strings.ToLower(n), n + "_", n + "s", n[:len(n)-1], strings.ReplaceAll(n, "_", "-")}, "indexTwin")
			for k, x := range tb.Indices {
				if k != 1 && x.Name == tb.Indices[1].Name {
					tb.Indices[1].Name = n + "__"
				}
			}
		}
	}
}

// caseTwin makes the names of two tables differ in case only.
func caseTwin(t *rapid.T, s *Schema) {
	if len(s.Tables) < 2 {
		return
	}
	i := rapid.IntRange(0, len(s.Tables)-1).Draw(t, "twinOf")
	j := rapid.IntRange(0, len(s.Tables)-2).Draw(t, "twin")
	if j >= i {
		j++
	}
	b := []byte(s.Tables[i].Name)
	k := rapid.IntRange(0, len(b)-1).Draw(t, "twinAt")
	for n := 0; n < len(b); n++ {
		x := &b[(k+n)%len(b)]
		if *x >= 'a' && *x <= 'z' || *x >= 'A' && *x <= 'Z' {
			*x ^= 0x20
			break
		}
	}
	old, name := s.Tables[j].Name, string(b)
	if s.Table(name) != nil {
		return
	}
	s.Tables[j].Name = name
	for _, tb := range s.Tables {
		for _, c := range tb.Columns {
			if c.Ref != nil && c.Ref.Table == old {
				c.Ref.Table = name
			}
		}
	}
}

// genNames draws n names with pairwise different keys, by construction.
func genNames(t *rapid.T, g *rapid.Generator[string], n int, key func(string) string, label string) []string {
	if key == nil {
		key = strings.ToLower
	}
	seen := map[string]bool{}
	var out []string
	for i := 0; len(out) < n; i++ {
		s := g.Draw(t, label)
		for k := 0; seen[key(s)]; k++ {
			s = fmt.Sprintf("%s_q%c", s, 'a'+rune((len(out)+k)%26))
		}
		seen[key(s)] = true
		out = append(out, s)
	}
	return out
}

type TextLevel int

const (
	TextNone   TextLevel = iota
	TextPlain            // words, unicode letters, harmless punctuation, single line
	TextQuotes           // plus ' " \ ` # % & < > | { } [ ] $ ; -- single line
	TextAny              // plus newlines and tabs
)

var plainRunes = []rune("abcdefghij XYZ 0123 .,:-()/_+=!?@*~^ éüñ 한국어 日本 Ω")
var quoteRunes = []rune("'\"\\`#%&<>|{}[]$;-'\"\\")

func genText(l TextLevel) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		n := rapid.IntRange(1, 14).Draw(t, "len")
		if chance(t, 3, "longText") {
			n = rapid.IntRange(60, 300).Draw(t, "longLen")
		}
		var b strings.Builder
		for i := 0; i < n; i++ {
			k := rapid.IntRange(0, 99).Draw(t, "rk")
			switch {
			case k >= 95 && l >= TextAny:
				b.WriteRune(pick(t, []rune("\n\t\n"), "nl"))
			case k >= 92 && l >= TextQuotes:
				b.WriteString(pick(t, snippets, "snip"))
			case k >= 80 && l >= TextQuotes:
				b.WriteRune(pick(t, quoteRunes, "qr"))
			default:
				b.WriteRune(pick(t, plainRunes, "pr"))
			}
		}
		s := b.String()
		if strings.TrimSpace(s) == "" {
			return "memo"
		}
		if n > 60 && n%6 == 0 { // a page
			s = strings.TrimSpace(strings.Repeat(s+" ", 1+4000/len(s)))
		}
		return s
	})
}

// snippets mean something in one of the formats that are read or written.
var snippets = []string{"%s", "%d%%", "{{.}}", "${x}", "--", "/*", "*/", "//", `\n`, `\'`, "''", `""`, `"""`, "'''", "null", "true", "fn::", "#", "&lt;", "<b>", "@startuml", "}", "];", "`", `\u0041`, "\u00a0", "\u200b", "\u2028", "😀"}

type SchemaOpt struct {
	MinTables, MaxTables int
	MinCols, MaxCols     int
	Types                []string
	Aliases              bool // types may be spelled as their documented aliases, in any case
	TableName, ColName   NameOpt
	TableKey, ColKey     func(string) string
	Groups               []string // nil: no groups
	TableText, ColText   TextLevel
	TextFilter           func(string) string
	Refs                 bool
	RefRel               []string // relationships to draw from
	Dangling             bool
	OneRefPerTarget      bool
	RefsToPKOnly         bool // references point to a single-column primary key
	Indices              bool
	ClassNames           bool
	Sizes                bool
	OddSizes             bool // also on text, blob and clock types
	Defaults             bool
	DefaultFn            bool
	OnUpdate             bool
	StringDefault        TextLevel
	Meta                 bool // author, name, version
	NoPKPct              int  // percentage of tables without a primary key
	MultiPKPct           int
	UniquePct            int
	ValueText            TextLevel
	EmptyValue           bool // one of the values of an enum or set may be empty
	NoAutoIncRequired    bool
}

func sizesFor(t *rapid.T, typ string, c *Col) {
	switch {
	case typ == "varchar" || typ == "varbinary":
		c.Size = pick(t, []int{1, 2, 20, 40, 80, 255, 256, 1000, 4000, 65535}, "size")
		if chance(t, 25, "anySize") {
			c.Size = rapid.IntRange(1, pick(t, []int{300, 65535}, "sizeMax")).Draw(t, "sizeAny")
		}
	case typ == "char" || typ == "binary":
		c.Size = pick(t, []int{1, 2, 6, 20, 36, 255}, "size")
		if chance(t, 25, "anySize") {
			c.Size = rapid.IntRange(1, 255).Draw(t, "sizeAny")
		}
	case typ == "bit":
		c.Size = pick(t, []int{1, 1, 2, 3, 8, 64, rapid.IntRange(1, 64).Draw(t, "anyBits")}, "size")
	case typ == "decimal":
		c.Size = rapid.IntRange(1, 65).Draw(t, "size")
		if rapid.Bool().Draw(t, "hasScale") {
			c.Scale = rapid.IntRange(0, min(c.Size, 30)).Draw(t, "scale")
		}
	case typ == "double" || typ == "float":
		if rapid.Bool().Draw(t, "hasSize") {
			c.Size = rapid.IntRange(2, 50).Draw(t, "size")
			c.Scale = rapid.IntRange(1, min(c.Size, 30)).Draw(t, "scale")
		}
	case isIntType(typ):
		if chance(t, 25, "intSize") {
			c.Size = rapid.IntRange(2, 20).Draw(t, "size")
		}
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func genLiteralDefault(t *rapid.T, c *Col, str TextLevel) string {
	typ := c.Type
	switch {
	case isIntType(typ):
		if chance(t, 20, "anyInt") {
			hi := map[string]int{"int8": 1<<7 - 1, "int16": 1<<15 - 1, "int24": 1<<23 - 1, "int32": 1<<31 - 1, "int64": 1<<63 - 1}[typ]
			if hi > 0 {
				return fmt.Sprint(rapid.IntRange(-hi-1, hi).Draw(t, "intDefAny"))
			}
		}
		return pick(t, []string{"0", "1", "10", "127", "-1", "-20"}, "intDef")
	case isFloatType(typ):
		if chance(t, 20, "anyFloat") {
			return fmt.Sprintf("%d.%s", rapid.IntRange(-999, 999999).Draw(t, "whole"), rapid.StringMatching(`[0-9]{1,4}`).Draw(t, "fraction"))
		}
		return pick(t, []string{"0", "1", "0.5", "3.14", "-1.5", "10.00"}, "floatDef")
	case typ == "boolean":
		return pick(t, []string{"0", "1"}, "boolDef")
	case typ == "varchar" || typ == "char":
		s := pick(t, []string{"noname", "N", "A-1", "0", "2", "x y", ""}, "strDef")
		if str > TextNone {
			s += genText(str).Draw(t, "strDefText")
		}
		if strings.HasPrefix(s, "fn::") { // that would be a function
			s = "x" + s
		}
		return s
	case typ == "enum" || typ == "set":
		if s := pick(t, c.Values, "enumDef"); !strings.HasPrefix(s, "fn::") {
			return s
		}
	case typ == "date" || typ == "datetime" || typ == "time":
		d, k := "2021-01-31", pick(t, []string{"12:30:00", "12:30:00", "00:00:00", "09:05:00"}, "clock")
		if chance(t, 30, "anyDate") {
			d = fmt.Sprintf("%04d-%02d-%02d", rapid.IntRange(1000, 9999).Draw(t, "y"), rapid.IntRange(1, 12).Draw(t, "m"), rapid.IntRange(1, 28).Draw(t, "d"))
			k = fmt.Sprintf("%02d:%02d:%02d", rapid.IntRange(0, 23).Draw(t, "h"), rapid.IntRange(0, 59).Draw(t, "mi"), rapid.IntRange(0, 59).Draw(t, "se"))
			if typ == "datetime" && d < "1970-01-02" {
				d = "2000" + d[4:]
			}
		}
		switch typ {
		case "date":
			return d
		case "time":
			return k
		}
		return d + " " + k
	case typ == "year":
		return fmt.Sprint(pick(t, []int{2021, 2021, rapid.IntRange(1901, 2155).Draw(t, "anyYear")}, "yearDef"))
	}
	return ""
}

func aliasSpelling(t *rapid.T, canon string) string {
	opts := []string{canon}
	for a, c := range typeAliases {
		if c == canon {
			opts = append(opts, a)
		}
	}
	// map order must not matter
	for i := 1; i < len(opts); i++ {
		for j := i; j > 1 && opts[j] < opts[j-1]; j-- {
			opts[j], opts[j-1] = opts[j-1], opts[j]
		}
	}
	s := pick(t, opts, "alias")
	switch rapid.IntRange(0, 9).Draw(t, "case") {
	case 8:
		return strings.ToUpper(s)
	case 9:
		return strings.ToUpper(s[:1]) + s[1:]
	}
	return s
}

func genSchema(t *rapid.T, o SchemaOpt) *Schema {
	if o.MaxTables == 0 {
		o.MaxTables = 4
	}
	if o.MinTables == 0 && o.MaxTables > 0 {
		o.MinTables = 1
	}
	if o.MaxCols == 0 {
		o.MaxCols = 6
	}
	if o.MinCols == 0 {
		o.MinCols = 1
	}
	if o.Types == nil {
		o.Types = canonicalTypes
	}
	s := &Schema{}
	if o.Meta {
		s.Author = pick(t, []string{"", "foo", "Lechuck Roh", "홍길동"}, "author")
		s.Name = pick(t, []string{"", "mydb", "My Schema"}, "sname")
		s.Version = pick(t, []string{"", "1.0.0", "2", "v3"}, "version")
		if chance(t, 10, "oddMeta") {
			s.Author = pick(t, []string{"O'Brien", "Kim \"K\" Lee", "a: b", "1.0", "~", "@me", "- x", "true", "007", "x #1", "C:\\me", "{{.}}", "%s"}, "authorOdd")
			s.Name = pick(t, []string{"db.v2", "my-db_1", "스키마", "1.0", "null", "A & B"}, "snameOdd")
			s.Version = pick(t, []string{"1.10", "1.0", "2021-01-31", "v1.0.0-rc+1", "1e3", "007", "true", "null", "베타 1"}, "versionOdd")
		}
	}
	wide := false
	if o.MaxTables > 2 && o.MaxCols > 3 {
		switch k := rapid.IntRange(0, 99).Draw(t, "shape"); {
		case k >= 98: // many tables
			o.MinTables, o.MaxTables, o.MaxCols = 8, 20, o.MinCols+2
			if chance(t, 15, "crowd") {
				o.MinTables, o.MaxTables, o.MaxCols = 60, 130, o.MinCols+1
			}
		case k >= 95: // wide tables
			o.MaxTables, wide = o.MinTables+1, true
		}
	}
	n := rapid.IntRange(o.MinTables, o.MaxTables).Draw(t, "nTables")
	names := genNames(t, genName(o.TableName), n, o.TableKey, "table")
	cn := genName(o.ColName)
	for _, name := range names {
		tb := &Table{Name: name}
		if o.Groups != nil {
			tb.Group = pick(t, o.Groups, "group")
		}
		if o.TableText > TextNone && chance(t, 50, "hasTableDesc") {
			tb.Desc = genText(o.TableText).Draw(t, "tableDesc")
		}
		nc := rapid.IntRange(o.MinCols, o.MaxCols).Draw(t, "nCols")
		if wide {
			nc = rapid.IntRange(o.MinCols+6, 32).Draw(t, "nColsWide")
			if chance(t, 8, "veryWide") {
				nc = rapid.IntRange(64, 130).Draw(t, "nColsVeryWide")
			}
		}
		cols := genNames(t, cn, nc, o.ColKey, "col")
		noPK := chance(t, o.NoPKPct, "noPK")
		nPK := 1
		if noPK {
			nPK = 0
		} else if nc > 1 && chance(t, o.MultiPKPct, "multiPK") {
			nPK = rapid.IntRange(2, min(3, nc)).Draw(t, "nPK")
			if nc > 3 && chance(t, 8, "bigPK") {
				nPK = rapid.IntRange(4, min(6, nc)).Draw(t, "nPKBig")
			}
		}
		first := 0
		if nPK > 0 && nPK < nc && chance(t, 20, "pkLater") {
			first = rapid.IntRange(0, nc-nPK).Draw(t, "firstPK")
		}
		isPK := map[int]bool{}
		for i := first; i < first+nPK; i++ {
			isPK[i] = true
		}
		if nPK > 1 && nPK < nc && chance(t, 25, "scatterPK") {
			// key columns with others in between
			delete(isPK, first+nPK-1)
			var free []int
			for i := range cols {
				if !isPK[i] {
					free = append(free, i)
				}
			}
			isPK[pick(t, free, "scatterAt")] = true
		}
		hasAuto := false
		for i, cname := range cols {
			typ := pick(t, o.Types, "type")
			c := &Col{Name: cname, Type: typ}
			if isPK[i] {
				c.PK = true
				if len(typeSet(o.Types, "int64", "int32", "varchar")) > 0 && chance(t, 80, "pkSimple") {
					c.Type = pick(t, typeSet(o.Types, "int64", "int32", "varchar"), "pkType")
					typ = c.Type
				}
				c.NotNull = rapid.Bool().Draw(t, "pkNN")
				if isIntType(typ) && !hasAuto && (nPK == 1 && rapid.Bool().Draw(t, "autoinc") || nPK > 1 && chance(t, 10, "autoincOfMany")) {
					c.AutoInc, hasAuto = true, true
				}
			} else {
				c.NotNull = rapid.Bool().Draw(t, "notnull")
				if isIntType(typ) && !hasAuto && o.UniquePct > 0 && chance(t, 4, "autoincNoPK") {
					c.AutoInc, hasAuto = true, true
				}
			}
			if typ == "enum" || typ == "set" {
				vg := rapid.StringMatching(`[a-z][a-z0-9]{0,4}|[A-Z]|[0-9]`)
				c.Values = genNames(t, vg, rapid.IntRange(1, pick(t, []int{4, 4, 4, 4, 14}, "maxVals")).Draw(t, "nVals"), nil, "val")
				if chance(t, 2, "manyVals") {
					for k := pick(t, []int{63, 64, 65, 70, 100}, "nManyVals"); len(c.Values) < k && (typ == "enum" || len(c.Values) < 64); {
						c.Values = append(c.Values, fmt.Sprintf("many%d", len(c.Values)))
					}
				}
				if o.ValueText > TextNone && chance(t, 30, "valText") {
					c.Values[0] = strings.ReplaceAll(genText(o.ValueText).Draw(t, "valTxt"), ",", ".")
					for i := 1; i < len(c.Values); i++ {
						c.Values[i] = fmt.Sprintf("v%d", i)
					}
				}
			}
			if o.EmptyValue && len(c.Values) > 0 && chance(t, 15, "emptyValue") {
				c.Values[rapid.IntRange(0, len(c.Values)-1).Draw(t, "emptyAt")] = ""
			}
			if o.Sizes {
				sizesFor(t, typ, c)
				if o.OddSizes && c.Size == 0 && chance(t, 12, "oddSize") {
					switch {
					case isTextType(typ) || isBlobType(typ):
						c.Size = pick(t, []int{10, 255, 1000}, "textSize")
					case typ == "datetime" || typ == "time":
						c.Size = pick(t, []int{3, 6}, "fsp")
					case typ == "year":
						c.Size = 4
					}
				}
			}
			if o.UniquePct > 0 {
				c.Unique = chance(t, o.UniquePct, "unique") || c.AutoInc && !c.PK
			}
			if o.ColText > TextNone && chance(t, 45, "hasDesc") {
				c.Desc = genText(o.ColText).Draw(t, "desc")
			}
			if o.Defaults && !c.AutoInc && chance(t, 35, "hasDef") {
				if o.DefaultFn && typ == "datetime" && rapid.Bool().Draw(t, "fnDef") {
					c.Default = pick(t, []string{"fn::CURRENT_TIMESTAMP", "fn::CURRENT_TIMESTAMP", "fn::NOW"}, "fn")
				} else {
					c.Default = genLiteralDefault(t, c, o.StringDefault)
				}
			}
			if o.OnUpdate && typ == "datetime" && chance(t, 40, "onUpd") {
				c.OnUpdate = pick(t, []string{"fn::CURRENT_TIMESTAMP", "fn::CURRENT_TIMESTAMP", "fn::NOW"}, "updFn")
			}
			tb.Columns = append(tb.Columns, c)
		}
		if o.ClassNames && chance(t, 25, "hasClass") {
			tb.ClassName = pick(t, []string{"Klass", "MyEntity", "Acct", "PersonInfo"}, "className") + fmt.Sprint(len(s.Tables))
		}
		if o.Indices {
			ni := rapid.IntRange(0, 3).Draw(t, "nIdx")
			if chance(t, 3, "manyIdx") {
				ni = rapid.IntRange(9, 12).Draw(t, "nIdxMany")
			}
			idxName := pick(t, []string{"idx_" + strings.ToLower(tb.Name), "idx_" + strings.ToLower(tb.Name), "idx", "Search By", tb.Name, cols[0]}, "idxName")
			for k := 0; k < ni; k++ {
				m := rapid.IntRange(1, min(4, nc)).Draw(t, "idxCols")
				if chance(t, 3, "longIdx") {
					m = min(16, nc)
				}
				off := rapid.IntRange(0, nc-1).Draw(t, "idxOff")
				rev := rapid.Bool().Draw(t, "idxRev")
				ix := &Index{Name: fmt.Sprintf("%s_%d", idxName, k)}
				for q := 0; q < m; q++ {
					p := (off + q) % nc
					if rev {
						p = ((off-q)%nc + nc) % nc
					}
					ix.Columns = append(ix.Columns, tb.Columns[p].Name)
				}
				tb.Indices = append(tb.Indices, ix)
			}
		}
		s.Tables = append(s.Tables, tb)
	}
	if o.Refs {
		rel := o.RefRel
		if rel == nil {
			rel = []string{"n:1", "n:1", "1:1", "1:n"}
		}
		for _, tb := range s.Tables {
			used := map[string]bool{}
			for _, c := range tb.Columns {
				if !chance(t, 30, "hasRef") {
					continue
				}
				if o.Dangling && chance(t, 15, "dangling") {
					c.Ref = &Ref{Table: "no_such_table", Column: "id", Relationship: pick(t, rel, "rel")}
					continue
				}
				target := pick(t, s.Tables, "refTable")
				if o.OneRefPerTarget && used[target.Name] {
					continue
				}
				var tc *Col
				if o.RefsToPKOnly {
					if len(target.PKs()) != 1 {
						continue
					}
					tc = target.PKs()[0]
				} else {
					tc = pick(t, target.Columns, "refCol")
				}
				used[target.Name] = true
				c.Ref = &Ref{Table: target.Name, Column: tc.Name, Relationship: pick(t, rel, "rel")}
			}
		}
	}
	if o.Aliases {
		for _, tb := range s.Tables {
			for _, c := range tb.Columns {
				c.Type = aliasSpelling(t, c.Type)
			}
		}
	}
	return s
}

// typeSet returns the members of want that occur in have.
func typeSet(have []string, want ...string) []string {
	h := strSet(have...)
	var r []string
	for _, w := range want {
		if h[w] {
			r = append(r, w)
		}
	}
	return r
}

func without(xs []string, drop ...string) []string {
	d := strSet(drop...)
	var r []string
	for _, x := range xs {
		if !d[x] {
			r = append(r, x)
		}
	}
	return r
}

// opts draws a named option map value with probability pct.
func drawOpt(t *rapid.T, m map[string]string, key string, pct int, values ...string) {
	if chance(t, pct, "opt_"+key) {
		m[key] = pick(t, values, "val_"+key)
	}
}

// alpha numbers things with capital letters.
func alpha(i int) string {
	s := string(rune('A' + i%26))
	if i >= 26 {
		s = alpha(i/26-1) + strings.ToLower(s)
	}
	return s
}
