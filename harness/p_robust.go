package main

// C22: damaged input files.

import (
	"archive/zip"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"path/filepath"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

// ------------------------------------------------------- damage to bytes

var junkBytes = []string{"\x00", "\xff", "\xfe\xff", "\xef\xbb\xbf", "\"", "\\", "{", "}", "[", "]", ",", ":", "'", "`", "(", ")", ";", "--", "/*", "\n", "\r", "\u2028", "\xed\xa0\x80", "9", "-", "e", "null", "%s", "{{.}}", "<", "&"}

func damageBytes(rnd *rand.Rand, data []byte) ([]byte, string) {
	at := func() int { return rnd.Intn(len(data) + 1) }
	switch k := rnd.Intn(9); {
	case len(data) == 0 || k == 0:
		return nil, "empty"
	case k == 1:
		return append([]byte{}, data[:at()]...), "truncated"
	case k == 2:
		i := at()
		j := i + rnd.Intn(20)
		if j > len(data) {
			j = len(data)
		}
		return append(append([]byte{}, data[:i]...), data[j:]...), "bytes removed"
	case k == 3:
		i := at()
		return append(append(append([]byte{}, data[:i]...), junkBytes[rnd.Intn(len(junkBytes))]...), data[i:]...), "bytes inserted"
	case k == 4:
		b := append([]byte{}, data...)
		for n := 1 + rnd.Intn(3); n > 0; n-- {
			b[rnd.Intn(len(b))] = byte(rnd.Intn(256))
		}
		return b, "bytes replaced"
	case k == 5:
		b := append([]byte{}, data...)
		b[rnd.Intn(len(b))] ^= 1 << uint(rnd.Intn(8))
		return b, "bit flipped"
	case k == 6:
		i, j := at(), at()
		if i > j {
			i, j = j, i
		}
		if j-i > 400 {
			j = i + 400
		}
		return append(append(append([]byte{}, data[:j]...), data[i:j]...), data[j:]...), "bytes repeated"
	case k == 7:
		return append(append([]byte{}, data...), data...), "file twice"
	}
	return append(data[at():len(data):len(data)], junkBytes[rnd.Intn(len(junkBytes))]...), "start removed"
}

// -------------------------------------------------------- damage to JSON

type rawNum string

var junkValues = []interface{}{
	nil, nil, nil, true, false, rawNum("0"), rawNum("-1"), rawNum("1"), rawNum("1.5"), rawNum("65536"), rawNum("99999999999999999999"), rawNum("1e400"), rawNum("-0"),
	"", "", "null", "x", "\x00", "a\nb", "\"", "'", "`", "a.b", "a,b", "fn::", "fn::now()", "😀", strings.Repeat("long ", 400),
	[]interface{}{}, []interface{}{nil}, []interface{}{[]interface{}{}}, []interface{}{"x"}, []interface{}{rawNum("1")},
	map[string]interface{}{}, map[string]interface{}{"": nil}, map[string]interface{}{"name": nil}, []interface{}{map[string]interface{}{}},
}

// type names, relationships etc. that a member may hold, right or wrong
var junkWords = []interface{}{"int", "enum", "set", "varchar", "decimal", "bit", "geometry", "nosuchtype", "INT(11)", "varchar(", "varchar(x)", "decimal(10,", "decimal(99999999999,2)", "()", "n:1", "1:n", "1:1", "n:m", ":", "id", "user", "1.0.0", "CURRENT_TIMESTAMP", "0", "true"}

func writeJSON(b *strings.Builder, v interface{}) {
	switch x := v.(type) {
	case rawNum:
		b.WriteString(string(x))
	case json.Number:
		b.WriteString(x.String())
	case map[string]interface{}:
		b.WriteString("{")
		for i, k := range sortedKeys(x) {
			if i > 0 {
				b.WriteString(",")
			}
			kb, _ := json.Marshal(strings.TrimPrefix(k, "\x01"))
			b.Write(kb)
			b.WriteString(":")
			writeJSON(b, x[k])
		}
		b.WriteString("}")
	case []interface{}:
		b.WriteString("[")
		for i, y := range x {
			if i > 0 {
				b.WriteString(",")
			}
			writeJSON(b, y)
		}
		b.WriteString("]")
	default:
		vb, _ := json.Marshal(x)
		b.Write(vb)
	}
}

func copyJSON(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, y := range x {
			m[k] = copyJSON(y)
		}
		return m
	case []interface{}:
		a := []interface{}{}
		for _, y := range x {
			a = append(a, copyJSON(y))
		}
		return a
	}
	return v
}

// damageJSON replaces, removes, repeats or adds members and elements.
func damageJSON(rnd *rand.Rand, data []byte) ([]byte, string) {
	d := json.NewDecoder(bytes.NewReader(data))
	d.UseNumber()
	var root interface{}
	if err := d.Decode(&root); err != nil {
		infra("not JSON: %v", err)
	}
	junk := func() interface{} {
		if rnd.Intn(3) == 0 {
			return junkWords[rnd.Intn(len(junkWords))]
		}
		return copyJSON(junkValues[rnd.Intn(len(junkValues))])
	}
	var names []string
	what := ""
	for n := 1 + rnd.Intn(3); n > 0; n-- {
		// all places: a container and a key or an index
		type place struct {
			m   map[string]interface{}
			k   string
			a   []interface{}
			i   int
			set func([]interface{})
		}
		var places []place
		names = nil
		var walk func(v interface{}, set func(v interface{}))
		walk = func(v interface{}, set func(v interface{})) {
			switch x := v.(type) {
			case map[string]interface{}:
				for _, k := range sortedKeys(x) {
					k := k
					names = append(names, k)
					places = append(places, place{m: x, k: k})
					walk(x[k], func(v interface{}) { x[k] = v })
				}
			case []interface{}:
				for i := range x {
					i := i
					places = append(places, place{a: x, i: i, set: func(a []interface{}) { set(a) }})
					walk(x[i], func(v interface{}) { x[i] = v })
				}
			}
		}
		walk(root, func(v interface{}) { root = v })
		if len(places) == 0 || rnd.Intn(60) == 0 {
			root = junk()
			what += " root replaced"
			continue
		}
		p := places[rnd.Intn(len(places))]
		op := rnd.Intn(8)
		switch {
		case p.m != nil && op == 0:
			delete(p.m, p.k)
			what += " member removed"
		case p.m != nil && op == 1:
			v := p.m[p.k]
			delete(p.m, p.k)
			nk := names[rnd.Intn(len(names))]
			if rnd.Intn(4) == 0 {
				nk = strings.ToUpper(p.k)
			}
			p.m[nk] = v
			what += " member renamed"
		case p.m != nil && op == 2:
			p.m["\x01"+p.k] = junk()
			what += " member twice"
		case p.m != nil:
			p.m[p.k] = junk()
			what += " value replaced"
		case op == 0:
			p.set(append(append([]interface{}{}, p.a[:p.i]...), p.a[p.i+1:]...))
			what += " element removed"
		case op == 1:
			p.set(append(append([]interface{}{}, p.a...), copyJSON(p.a[p.i])))
			what += " element repeated"
		case op == 2:
			p.set(append(append([]interface{}{}, p.a...), junk()))
			what += " element added"
		case op == 3:
			p.set([]interface{}{})
			what += " array emptied"
		default:
			p.a[p.i] = junk()
			what += " element replaced"
		}
	}
	var b strings.Builder
	writeJSON(&b, root)
	return []byte(b.String()), strings.TrimSpace(what)
}

// --------------------------------------------------------- damage to SQL

var reToken = regexp.MustCompile("(?s)'(?:[^'\\\\]|\\\\.|'')*'|`[^`]*`|\"[^\"]*\"|[A-Za-z_0-9]+|\\s+|.")

var junkTokens = []string{"CREATE TABLE", "PRIMARY KEY", "UNIQUE", "KEY", "(", ")", "()", ",", ";", "NULL", "NOT", "DEFAULT", "''", "'x", "`", "``", "(0)", "(99999999999999999999)", "(1,2,3)", "(-1)", "AUTO_INCREMENT", "COMMENT", "enum()", "enum('a')", "set", "int", "decimal", "bit(64)", "FOREIGN KEY", "REFERENCES", "CHECK (1)", "GENERATED ALWAYS AS (1)", "LIKE x", "SELECT 1", "AS SELECT 1", "IF NOT EXISTS", "TEMPORARY", "ON UPDATE NOW()", "DEFAULT (1+1)", "DEFAULT now(6)", "DEFAULT 1e5", "DEFAULT 0x1F", "DEFAULT b'1'", "DEFAULT -1", "DEFAULT NULL", "DEFAULT (uuid())", "COLLATE utf8", "x.y", "a.b.c", "INDEX ((a+1))", "FULLTEXT KEY f (a)", "PARTITION BY HASH(id)", "ENGINE=", "/*!40101 SET x=1 */", "/*", "-- \n", "#", "\\", "CONSTRAINT", "UNSIGNED", "ZEROFILL", "SERIAL", "json", "point", "vector", "year(4)", "national varchar(3)", "double precision", "boolean", "long varchar", "char byte", "CHARACTER SET binary", "INVISIBLE", "STORAGE DISK", "REFERENCES t(id)"}

func damageSQL(rnd *rand.Rand, data []byte) ([]byte, string) {
	toks := reToken.FindAllString(string(data), -1)
	if len(toks) == 0 {
		toks = []string{" "}
	}
	what := ""
	for n := 1 + rnd.Intn(4); n > 0; n-- {
		i := rnd.Intn(len(toks))
		for k := 0; k < 5 && strings.TrimSpace(toks[i]) == ""; k++ {
			i = rnd.Intn(len(toks))
		}
		switch rnd.Intn(5) {
		case 0:
			toks = append(append([]string{}, toks[:i]...), toks[i+1:]...)
			what += " token removed"
			if len(toks) == 0 {
				return nil, "empty"
			}
		case 1:
			toks[i] = junkTokens[rnd.Intn(len(junkTokens))]
			what += " token replaced"
		case 2:
			toks = append(append(append([]string{}, toks[:i+1]...), " "+junkTokens[rnd.Intn(len(junkTokens))]+" "), toks[i+1:]...)
			what += " token inserted"
		case 3:
			j := rnd.Intn(len(toks))
			toks[i], toks[j] = toks[j], toks[i]
			what += " tokens swapped"
		case 4:
			toks = append(append(append([]string{}, toks[:i+1]...), " ", toks[i]), toks[i+1:]...)
			what += " token repeated"
		}
	}
	return []byte(strings.Join(toks, "")), strings.TrimSpace(what)
}

// openParen tells whether a DDL script ends within parentheses or a string.
// The script must not have been damaged but for being cut off.
func openParen(s string) bool {
	depth := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\'', '"', '`':
			q := s[i]
			j := i + 1
			for ; j < len(s); j++ {
				if s[j] == '\\' && q != '`' {
					j++
				} else if s[j] == q {
					break
				}
			}
			if j >= len(s) {
				return depth > 0
			}
			i = j
		case '#':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case '-':
			if strings.HasPrefix(s[i:], "--") {
				for i < len(s) && s[i] != '\n' {
					i++
				}
			}
		case '/':
			if strings.HasPrefix(s[i:], "/*") {
				j := strings.Index(s[i+2:], "*/")
				if j < 0 {
					return depth > 0
				}
				i += j + 3
			}
		case '(':
			depth++
		case ')':
			depth--
		}
	}
	return depth > 0
}

// ---------------------------------------------------- damage to workbooks

var junkCells = []string{"", " ", "null", "PK", "pk", "P", "UQ", "\x01", "table", "Table", "column", "Type", "type", "not null", "O", "-", "varchar(", "int(x)", "decimal(10,)", "a.b.c", ".", "(", "x", "default", "autoinc", "Meta", strings.Repeat("長い", 300), "1", "-1", "99999999999", "=1+1", "\n"}

// junkByColumn holds what is nearly right in each column of a group sheet.
var junkByColumn = [][]string{
	{".x", ">.x", "<.x", "-.x", "a.", ">a.", ">", ".", "..", "> .x", ">a.b", ">a.b.c", "> a . b ", "a", ">>a.b", "-"},
	{"", " ", "id", "a b", "a.b", "`"},
	{"", "table", "TABLE", "enum", "set", "varchar()", "varchar(-1)", "decimal(,2)", "decimal(10,2", "decimal 10", "(10)", "int(99999999999999999999)", "varchar(65536)", "decimal(5,99999)"},
	{"", "P", "U", "I", "p", "PI", "X"},
	{"", "O", "X", "not null", "nullable"},
	{"", "=", "=x", "default", "default=", "default==", "autoInc=false", "autoInc,autoInc", ",", ",,default=1,", "onUpdate", "class", "class=", "default=a,b"},
	{"", " ", "\r\n", "x"},
}

func damageBook(rnd *rand.Rand, bk *Book) ([]byte, string) {
	b, _ := json.Marshal(bk)
	var x Book
	json.Unmarshal(b, &x)
	what := ""
	for n := 1 + rnd.Intn(4); n > 0; n-- {
		if len(x.Sheets) == 0 {
			x.Sheets = []*Sheet{{Name: junkCells[rnd.Intn(len(junkCells))]}}
			what += " sheet added"
			continue
		}
		si := rnd.Intn(len(x.Sheets))
		s := x.Sheets[si]
		ri, ci := -1, -1
		if len(s.Rows) > 0 {
			ri = rnd.Intn(len(s.Rows))
			if rnd.Intn(3) == 0 {
				ri = rnd.Intn(min(len(s.Rows), 3))
			}
			if len(s.Rows[ri]) > 0 {
				ci = rnd.Intn(len(s.Rows[ri]))
			}
		}
		switch op := rnd.Intn(15); {
		case op >= 12:
			// much of one column of the sheet
			col := rnd.Intn(len(junkByColumn))
			for i, row := range s.Rows {
				if i > 0 && len(row) > col && rnd.Intn(2) == 0 && (col > 2 || len(row) < 3 || row[2] != "table") {
					s.Rows[i] = append([]string{}, row...)
					s.Rows[i][col] = junkByColumn[col][rnd.Intn(len(junkByColumn[col]))]
				}
			}
			what += " column of junk"
		case op == 0:
			x.Sheets = append(x.Sheets[:si:si], x.Sheets[si+1:]...)
			what += " sheet removed"
		case op == 1:
			s.Name = junkCells[rnd.Intn(len(junkCells))]
			what += " sheet renamed"
		case op == 2:
			s.Rows = nil
			what += " sheet emptied"
		case op == 3:
			x.Sheets = append(x.Sheets, s)
			what += " sheet repeated"
		case op == 4:
			j := rnd.Intn(len(x.Sheets))
			x.Sheets[si], x.Sheets[j] = x.Sheets[j], x.Sheets[si]
			what += " sheets swapped"
		case op == 5 && ri >= 0:
			s.Rows = append(s.Rows[:ri:ri], s.Rows[ri+1:]...)
			what += " row removed"
		case op == 6 && ri >= 0:
			s.Rows = append(append(append([][]string{}, s.Rows[:ri]...), s.Rows[ri]), s.Rows[ri:]...)
			what += " row repeated"
		case op == 7 && ri >= 0:
			s.Rows = append(append(append([][]string{}, s.Rows[:ri]...), []string{}), s.Rows[ri:]...)
			what += " empty row"
		case op == 8 && ci >= 0:
			s.Rows[ri] = append([]string{}, s.Rows[ri][:ci]...)
			what += " row cut"
		case ci >= 0:
			s.Rows[ri] = append([]string{}, s.Rows[ri]...)
			s.Rows[ri][ci] = junkCells[rnd.Intn(len(junkCells))]
			if ci < len(junkByColumn) && rnd.Intn(2) == 0 {
				s.Rows[ri][ci] = junkByColumn[ci][rnd.Intn(len(junkByColumn[ci]))]
			}
			what += " cell replaced"
		}
	}
	return x.Bytes(), strings.TrimSpace(what)
}

var reAttr = regexp.MustCompile(`="[^"]*"`)
var reTag = regexp.MustCompile(`<[^<>]*>`)
var junkAttrs = []string{"", "0", "-1", "1", "99", "4294967296", "x", "A0", "A", "1A", "AAAA1", "A-1", "rId99", "s", "n", "b", "e", "str", "inlineStr", "..", "../../x", "&#0;", "0.5"}

// damageZip changes the parts of a workbook and zips them again.
func damageZip(rnd *rand.Rand, data []byte) ([]byte, string) {
	zr, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		infra("zip: %v", err)
	}
	type part struct {
		name string
		b    []byte
	}
	var parts []part
	for _, f := range zr.File {
		r, err := f.Open()
		if err != nil {
			infra("zip: %v", err)
		}
		b, _ := io.ReadAll(r)
		r.Close()
		parts = append(parts, part{f.Name, b})
	}
	what := ""
	for n := 1 + rnd.Intn(3); n > 0 && len(parts) > 0; n-- {
		i := rnd.Intn(len(parts))
		p := &parts[i]
		replace := func(re *regexp.Regexp, f func(old string) string) {
			all := re.FindAllIndex(p.b, -1)
			if len(all) == 0 {
				return
			}
			l := all[rnd.Intn(len(all))]
			p.b = append(append(append([]byte{}, p.b[:l[0]]...), f(string(p.b[l[0]:l[1]]))...), p.b[l[1]:]...)
		}
		switch rnd.Intn(8) {
		case 0:
			what += " part removed " + p.name
			parts = append(parts[:i:i], parts[i+1:]...)
		case 1:
			what += " part renamed " + p.name
			p.name = pickStr(rnd, parts[rnd.Intn(len(parts))].name, "xl/x.xml", strings.ToUpper(p.name), "/"+p.name)
		case 2:
			what += " part emptied " + p.name
			p.b = nil
		case 3, 4, 5:
			what += " attribute of " + p.name
			replace(reAttr, func(string) string { return `="` + junkAttrs[rnd.Intn(len(junkAttrs))] + `"` })
		case 6:
			what += " tag of " + p.name
			replace(reTag, func(old string) string { return pickStr(rnd, "", old+old, "<x/>", "<v>1</v>", "<si/>") })
		case 7:
			what += " bytes of " + p.name
			p.b, _ = damageBytes(rnd, p.b)
		}
	}
	var out bytes.Buffer
	z := zip.NewWriter(&out)
	for _, p := range parts {
		w, err := z.Create(p.name)
		if err != nil {
			infra("zip: %v", err)
		}
		w.Write(p.b)
	}
	z.Close()
	return out.Bytes(), strings.TrimSpace(what)
}

func pickStr(rnd *rand.Rand, s ...string) string { return s[rnd.Intn(len(s))] }

// ------------------------------------------------------------- generator

func genDamaged(t *rapid.T) *Case {
	var only func(*cmdSpec) bool
	if chance(t, 35, "imports") { // these read the richest formats
		only = func(sp *cmdSpec) bool { return strings.HasPrefix(sp.name, "import-") }
	}
	sp, c := genCmd(t, only)
	files := sp.inFiles(c)
	f := files[rapid.IntRange(0, len(files)-1).Draw(t, "file")]
	rnd := rand.New(rand.NewSource(rapid.Int64().Draw(t, "damage")))
	var data []byte
	var what string
	level := rnd.Intn(10)
	must := ""
	switch {
	case level < 3:
		data, what = damageBytes(rnd, f.data)
		if what == "truncated" && sp.name == "import-mysql" && openParen(string(data)) {
			must = "the script ends within a statement"
		}
		if what == "truncated" && sp.name == "import-xlsx" && len(data) < len(f.data) {
			must = "the workbook is cut off"
		}
	case sp.name == "import-mysql":
		if level == 3 {
			data, what = f.data[:rnd.Intn(len(f.data)+1)], "truncated"
			if openParen(string(data)) {
				must = "the script ends within a statement"
			}
		} else {
			data, what = damageSQL(rnd, f.data)
		}
	case sp.name == "import-xlsx":
		if level < 6 {
			data, what = damageZip(rnd, f.data)
		} else {
			data, what = damageBook(rnd, c.Book)
		}
	default:
		data, what = damageJSON(rnd, f.data)
	}
	c.Opts["damaged"], c.Opts["damage"] = f.name, what
	if must != "" {
		c.Opts["must"] = must
	}
	c.RawB64 = data
	if len(data) == 0 {
		c.Opts["emptyfile"] = "1"
	}
	c.Book = nil
	c.Opts["place"] = pick(t, []string{"new", "existing"}, "place")
	return c
}

// ---------------------------------------------------------- JSON schemas

// jType describes the JSON a member must hold: "s" string, "b" boolean,
// "u16" a number from 0 to 65535, "[" followed by a type, or an object.
type jObj map[string]interface{}
type jArr struct{ of interface{} }

var octopusShape, ojsonShape, starShape interface{}

func init() {
	ref := jObj{"table": "s", "column": "s", "relationship": "s"}
	col := jObj{"name": "s", "type": "s", "desc": "s", "size": "u16", "scale": "u16", "notnull": "b", "pk": "b", "unique": "b", "autoinc": "b", "default": "s", "onupdate": "s", "values": jArr{"s"}, "ref": ref}
	octopusShape = jObj{"author": "s", "name": "s", "version": "s", "tables": jArr{jObj{"name": "s", "desc": "s", "group": "s", "className": "s", "columns": jArr{col}, "indices": jArr{jObj{"name": "s", "columns": jArr{"s"}}}}}}
	ocol := jObj{"name": "s", "type": "s", "description": "s", "size": "u16", "scale": "u16", "notnull": "b", "pk": "b", "unique": "b", "autoinc": "b", "default": "s", "ref": jObj{"table": "s", "column": "s"}}
	ojsonShape = jObj{"author": "s", "name": "s", "version": "s", "tables": jArr{jObj{"name": "s", "desc": "s", "group": "s", "className": "s", "columns": jArr{ocol}}}}
	star := jObj{"_type": "s", "_id": "s", "name": "s", "type": "s", "documentation": "s", "primaryKey": "b", "unique": "b", "nullable": "b", "referenceTo": jObj{"$ref": "s"}, "_parent": jObj{"$ref": "s"}}
	star["ownedElements"], star["columns"] = jArr{star}, jArr{star}
	starShape = star
}

// misshapen returns what does not fit the format, "" if it fits.
func misshapen(v, shape interface{}, path string) string {
	if v == nil {
		return "" // absent
	}
	bad := func(want string) string {
		b, _ := json.Marshal(v)
		return fmt.Sprintf("%s is %s, not %s", path, clip(string(b), 60), want)
	}
	switch s := shape.(type) {
	case string:
		switch s {
		case "s":
			if _, ok := v.(string); !ok {
				return bad("a string")
			}
		case "b":
			if _, ok := v.(bool); !ok {
				return bad("a boolean")
			}
		case "u16":
			n, ok := v.(json.Number)
			if !ok {
				return bad("a number")
			}
			if f, err := n.Float64(); err != nil || f < 0 || f > 65535 || f != float64(int(f)) {
				return bad("a size")
			}
		}
	case jArr:
		a, ok := v.([]interface{})
		if !ok {
			return bad("an array")
		}
		for i, x := range a {
			if m := misshapen(x, s.of, fmt.Sprintf("%s[%d]", path, i)); m != "" {
				return m
			}
		}
	case jObj:
		m, ok := v.(map[string]interface{})
		if !ok {
			return bad("an object")
		}
		for _, k := range sortedKeys(m) {
			if sub := s[k]; sub != nil {
				if bad := misshapen(m[k], sub, path+"."+k); bad != "" {
					return bad
				}
			}
		}
	}
	return ""
}

// refusal tells why a command must refuse its input, "" if it may accept it.
func refusal(sp *cmdSpec, c *Case, data []byte) string {
	if c.flag("must") {
		return c.opt("must")
	}
	shape := octopusShape
	switch sp.name {
	case "import-ojson":
		shape = ojsonShape
	case "import-staruml":
		shape = starShape
	case "import-mysql":
		return ""
	case "import-xlsx":
		if _, err := zip.NewReader(bytes.NewReader(data), int64(len(data))); err != nil {
			return "the file is not a zip archive"
		}
		return ""
	}
	if !json.Valid(data) {
		return "the file is not JSON"
	}
	d := json.NewDecoder(bytes.NewReader(data))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return "the file is not JSON"
	}
	return misshapen(v, shape, "$")
}

// ----------------------------------------------------------------- check

func checkDamaged(e *Env, c *Case) *Outcome {
	o := &Outcome{}
	sp := command(c.opt("cmd"))
	data := c.RawB64
	if c.flag("emptyfile") {
		data = nil
	}
	for _, w := range strings.Fields("removed replaced truncated inserted repeated twice flipped empty swapped added") {
		if strings.Contains(c.opt("damage"), w) {
			o.label(w)
		}
	}
	o.label(sp.name)
	dir, done := e.Scratch()
	defer done()
	for _, f := range sp.inFilesBut(c) {
		write(filepath.Join(dir, "in", f.name), f.data)
	}
	write(filepath.Join(dir, "in", c.opt("damaged")), data)
	out := filepath.Join(dir, "w", c.opt("out"))
	mkdir(filepath.Dir(out))
	write(filepath.Join(dir, "w/keep.txt"), []byte("keep"))
	old := strings.Repeat("the previous output\n", 50)
	if c.opt("place") == "existing" && !sp.makesDir(out) {
		write(out, []byte(old))
	}
	before := tree(dir)
	args, env := sp.cmdLine(c, filepath.Join(dir, "in"), out)
	r := e.Run(dir, e.Oct, env, args...)
	after := tree(dir)
	desc := fmt.Sprintf("%s with a damaged input (%s)", sp.name, c.opt("damage"))
	if knownSheetMemory(r) && c.opt("finding") == "" {
		// listed in known_findings.txt, with the case that shows it
		o.label("known finding: rows of a far away cell")
		return o
	}
	if r.Crashed() {
		o.failf("%s crashed: %s\ninput: %s", desc, r.Brief(), clip(string(data), 2500))
		return o
	}
	for _, k := range sortedKeys(before) {
		if v, ok := after[k]; !ok {
			o.failf("%s removed %s", desc, k)
		} else if v != before[k] && !sp.mayWrite(c, out, filepath.Join(dir, k)) && !strings.HasPrefix(k, "w/"+c.opt("out")) {
			o.failf("%s changed %s", desc, k)
		}
	}
	if o.Fail != "" {
		return o
	}
	if why := refusal(sp, c, data); why != "" {
		o.label("must be refused")
		if r.OK() {
			o.failf("%s was accepted although %s\ninput: %s", desc, why, clip(string(data), 2500))
			return o
		}
	}
	if r.OK() {
		o.label("accepted")
		if !sp.makesDir(out) {
			if v, ok := after["w/"+c.opt("out")]; !ok || c.opt("place") == "existing" && v == old {
				o.failf("%s reports success but wrote no output: %s\ninput: %s", desc, r.Brief(), clip(string(data), 2500))
			}
		}
		return o
	}
	o.label("refused")
	if strings.TrimSpace(r.Stderr+r.Stdout) == "" {
		o.failf("%s fails without a message: %s", desc, r.Brief())
		return o
	}
	if !sp.makesDir(out) {
		v, ok := after["w/"+c.opt("out")]
		if b, was := before["w/"+c.opt("out")]; was && (!ok || v != b) {
			o.failf("%s failed but destroyed the previous output (now %d bytes): %s\ninput: %s", desc, len(v), r.Brief(), clip(string(data), 2500))
		} else if !was && ok {
			o.failf("%s failed but left an output of %d bytes: %s\ninput: %s", desc, len(v), r.Brief(), clip(string(data), 2500))
		}
	}
	return o
}

// knownSheetMemory recognises the call of the xlsx library that allocates a
// row for every row up to the one a cell claims to be in.
func knownSheetMemory(r *Result) bool {
	return strings.Contains(r.Stderr, "out of memory") && strings.Contains(r.Stderr, "tealeg/xlsx.readRowsFromSheet")
}

// inFilesBut are the input files other than the damaged one.
func (sp *cmdSpec) inFilesBut(c *Case) []struct {
	opt  optSpec
	name string
	data []byte
} {
	if !sp.diff {
		return nil
	}
	return sp.inFiles(c)
}

func init() {
	register(&Property{
		ID: "C22", Title: "Bad input ends in a clean error that leaves files alone", Quick: 12000,
		Rule:      "a random command on a valid random input that was then damaged (bytes removed, inserted, replaced, repeated, cut off; JSON members and elements removed, renamed, repeated or replaced by values of other types; SQL tokens removed, replaced, swapped; workbook parts, tags, attributes, sheets, rows and cells damaged); a case is non-trivial when the damaged file is neither empty nor shorter than 40 bytes; distinct by hash of the whole case",
		Trivial:   func(c *Case, o *Outcome) bool { return len(c.RawB64) < 40 },
		Scenarios: []*Scenario{{Name: "damaged", Weight: 20, Gen: genDamaged, Check: checkDamaged}},
	})
}
