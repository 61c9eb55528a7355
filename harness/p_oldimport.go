package main

// C07 (octopus v1 files) and C08 (StarUML projects): importers whose input
// is written by the generator side by side with the schema it means.

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// v1 type spellings and the octopus type each one means
var v1Types = map[string]string{
	"string": "varchar", "varchar": "varchar", "char": "varchar",
	"int": "int32", "integer": "int32", "smallint": "int32", "bigint": "int64", "long": "int64",
	"datetime": "datetime", "bool": "boolean", "boolean": "boolean",
	"number": "decimal", "double": "decimal", "decimal": "decimal", "float": "float",
	"text": "text16", "date": "date", "time": "time", "blob": "blob16",
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func randCase(t *rapid.T, s string) string {
	switch rapid.IntRange(0, 5).Draw(t, "letters") {
	case 4:
		return strings.ToUpper(s)
	case 5:
		return strings.ToUpper(s[:1]) + s[1:]
	}
	return s
}

func oldImportOpt() SchemaOpt {
	return SchemaOpt{
		Types: []string{"varchar"}, MaxTables: 6, MaxCols: 7,
		TableName: NameOpt{Upper: true, Awkward: true, Under: true},
		ColName:   NameOpt{Upper: true, Awkward: true, Under: true},
		TableText: TextAny, ColText: TextAny, Refs: true, Dangling: true, Meta: true,
		NoPKPct: 15, MultiPKPct: 30, UniquePct: 25,
	}
}

// crossNames gives some tables the name of another table as class name or
// group.
func crossNames(t *rapid.T, s *Schema) {
	if len(s.Tables) > 1 && chance(t, 25, "crossNames") {
		a, b := pick(t, s.Tables, "a"), pick(t, s.Tables, "b")
		if rapid.Bool().Draw(t, "asClass") {
			a.ClassName = b.Name
		} else {
			a.Group = b.Name
		}
	}
}

func genOjson(t *rapid.T) *Case {
	o := oldImportOpt()
	o.Groups = []string{"", "a", "회원"}
	o.ClassNames = true
	s := genSchema(t, o)
	crossNames(t, s)
	type m = map[string]interface{}
	root := m{}
	put := func(x m, k string, v string) {
		if v != "" {
			x[k] = v
		}
	}
	put(root, "author", s.Author)
	put(root, "name", s.Name)
	put(root, "version", s.Version)
	var tables []interface{}
	for _, tb := range s.Tables {
		x := m{"name": tb.Name}
		put(x, "desc", tb.Desc)
		put(x, "group", tb.Group)
		put(x, "className", tb.ClassName)
		var cols []interface{}
		for _, c := range tb.Columns {
			y := m{"name": c.Name}
			spelled := pick(t, sortedKeys(v1Types), "v1type")
			c.Type = v1Types[spelled]
			y["type"] = randCase(t, spelled)
			c.AutoInc, c.Size, c.Scale, c.Default = false, 0, 0, ""
			if isIntType(c.Type) && chance(t, 30, "ai") {
				c.AutoInc = true
			}
			if c.AutoInc || !isIntType(c.Type) && chance(t, 5, "strayAI") {
				y["autoinc"] = true
			}
			if chance(t, 50, "hasSize") {
				c.Size = pick(t, []int{1, 3, 20, 255, 4000, 65535}, "v1size")
				y["size"] = c.Size
			}
			if chance(t, 25, "hasScale") {
				c.Scale = pick(t, []int{1, 2, 10}, "v1scale")
				y["scale"] = c.Scale
			}
			if chance(t, 40, "hasDefault") {
				c.Default = pick(t, []string{"0", "1", "N", "it's", "CURRENT_TIMESTAMP", "false", "a,b"}, "v1def")
				y["default"] = c.Default
			}
			put(y, "description", c.Desc)
			if c.PK {
				y["pk"] = true
			}
			if c.Unique {
				y["unique"] = true
			}
			if c.NotNull {
				y["notnull"] = true
			} else if chance(t, 20, "explicitFalse") {
				y["notnull"] = false
			}
			if c.Ref != nil {
				c.Ref.Relationship = ""
				y["ref"] = m{"table": c.Ref.Table, "column": c.Ref.Column}
			}
			cols = append(cols, y)
		}
		x["columns"] = cols
		tables = append(tables, x)
	}
	root["tables"] = tables
	b, _ := json.Marshal(root)
	if rapid.Bool().Draw(t, "indent") {
		b, _ = json.MarshalIndent(root, "", "\t")
	}
	return &Case{Schema: s.Sorted(), Raw: string(b)}
}

func checkImport(kind, ext string) func(e *Env, c *Case) *Outcome {
	return func(e *Env, c *Case) *Outcome {
		o := &Outcome{}
		schemaLabels(o, c.Schema)
		dir, done := e.Scratch()
		defer done()
		in, back := filepath.Join(dir, "in."+ext), filepath.Join(dir, "back.json")
		write(in, []byte(c.Raw))
		if r := e.RunOct(dir, "import", kind, "--input", in, "--output", back); !r.OK() {
			o.failf("import of a valid file failed: %s", r.Brief())
			return o
		}
		got, err := ParseSchema([]byte(read(back)))
		if err != nil {
			o.failf("imported file is not an octopus schema: %v", err)
			return o
		}
		if d := diffSchemas(c.Schema, got); d != "" {
			o.failf("the imported schema is not what the file says: %s", d)
		}
		return o
	}
}

// ---- StarUML

var starTypes = []string{"varchar", "char", "int", "integer", "bigint", "smallint", "tinyint", "mediumint", "decimal", "numeric", "double", "float", "real",
	"date", "datetime", "timestamp", "time", "year", "text", "longtext", "mediumtext", "tinytext", "blob", "longblob", "boolean", "bit", "binary", "varbinary", "json", "int64", "int32", "text16"}

func genStar(t *rapid.T) *Case {
	s := genSchema(t, oldImportOpt())
	s.Author, s.Name = "", ""
	if s.Version == "" {
		s.Version = "Untitled"
	}
	type m = map[string]interface{}
	n := 0
	idStyle := rapid.IntRange(0, 9).Draw(t, "idStyle")
	newID := func() string {
		n++
		switch idStyle {
		case 8: // short
			return fmt.Sprint(n)
		case 9: // pairs that differ by case only
			return fmt.Sprintf("AAAAAAFz%06d%s=", n/2, []string{"Ab", "aB"}[n%2])
		}
		return fmt.Sprintf("AAAAAAFz%06d=", n)
	}
	tid, cid := map[string]string{}, map[string]string{}
	for _, tb := range s.Tables {
		tid[tb.Name] = newID()
		for _, c := range tb.Columns {
			cid[tb.Name+"\x00"+c.Name] = newID()
		}
	}
	ref := func(id string) m { return m{"$ref": id} }
	modelID, projID := newID(), newID()
	var owned []interface{}
	noise := func(label string) {
		if chance(t, 30, label) {
			owned = append(owned, m{"_type": "ERDDiagram", "_id": newID(), "_parent": ref(modelID), "name": "ERDDiagram1",
				"ownedViews": []interface{}{m{"_type": "ERDEntityView", "_id": newID(), "_parent": ref(modelID), "model": ref(newID())}}})
		}
	}
	noise("noise1")
	for _, tb := range s.Tables {
		x := m{"_type": "ERDEntity", "_id": tid[tb.Name], "_parent": ref(modelID), "name": tb.Name}
		if tb.Desc != "" {
			x["documentation"] = tb.Desc
			tb.Desc = strings.TrimSpace(tb.Desc)
		}
		var cols []interface{}
		var own []interface{}
		for _, c := range tb.Columns {
			spelled := pick(t, starTypes, "startype")
			c.Type = canonType(spelled)
			y := m{"_type": "ERDColumn", "_id": cid[tb.Name+"\x00"+c.Name], "_parent": ref(tid[tb.Name]), "name": c.Name}
			c.Size, c.Scale, c.AutoInc, c.Default = 0, 0, false, ""
			typ := randCase(t, spelled)
			switch rapid.IntRange(0, 5).Draw(t, "len") {
			case 0: // no length
			case 1:
				y["length"] = pick(t, []interface{}{"", 0, "0"}, "nolen")
			case 2:
				c.Size = pick(t, []int{1, 20, 255, 4000}, "slen")
				y["length"] = fmt.Sprint(c.Size)
			case 3:
				c.Size = pick(t, []int{1, 20, 255, 4000}, "ilen")
				y["length"] = c.Size
			case 4:
				c.Size = pick(t, []int{1, 20, 255, 4000}, "tlen")
				typ += fmt.Sprintf("(%d)", c.Size)
				if rapid.Bool().Draw(t, "zlen") {
					y["length"] = pick(t, []interface{}{"", 0}, "nolen2")
				}
			case 5:
				c.Size, c.Scale = pick(t, []int{5, 20}, "plen"), pick(t, []int{2, 4}, "sclen")
				typ += fmt.Sprintf(pick(t, []string{"(%d,%d)", "(%d,%d)", "(%d, %d)"}, "typeArgs"), c.Size, c.Scale)
				if chance(t, 30, "bothLen") { // the length member goes before the length in the type
					c.Size = pick(t, []int{7, 30}, "blen")
					y["length"] = pick(t, []interface{}{c.Size, fmt.Sprint(c.Size)}, "blenSpelling")
				}
			}
			y["type"] = typ
			if c.PK {
				y["primaryKey"] = true
			}
			if c.Unique {
				y["unique"] = true
			}
			if !c.NotNull {
				y["nullable"] = true
			}
			if c.Desc != "" {
				y["documentation"] = c.Desc
				c.Desc = strings.TrimSpace(c.Desc)
			}
			if c.Ref != nil {
				c.Ref.Relationship = ""
				y["foreignKey"] = true
				id := cid[c.Ref.Table+"\x00"+c.Ref.Column]
				if id == "" { // the domain has no dangling references
					c.Ref = nil
				} else {
					y["referenceTo"] = ref(id)
					own = append(own, m{"_type": "ERDRelationship", "_id": newID(), "_parent": ref(tid[tb.Name]),
						"end1": m{"_type": "ERDRelationshipEnd", "_id": newID(), "reference": ref(tid[tb.Name])},
						"end2": m{"_type": "ERDRelationshipEnd", "_id": newID(), "reference": ref(tid[c.Ref.Table])}})
				}
			}
			cols = append(cols, y)
		}
		x["columns"] = cols
		if len(own) > 0 {
			x["ownedElements"] = own
		}
		owned = append(owned, x)
	}
	noise("noise2")
	elems := []interface{}{m{"_type": "ERDDataModel", "_id": modelID, "_parent": ref(projID), "name": "Data Model1", "ownedElements": owned}}
	uml := m{"_type": "UMLModel", "_id": newID(), "_parent": ref(projID), "name": "Model",
		"ownedElements": []interface{}{m{"_type": "UMLClass", "_id": newID(), "name": "C"}, m{"_type": "UMLClassDiagram", "_id": newID(), "name": "Main"}}}
	if chance(t, 40, "umlFirst") {
		elems = append([]interface{}{uml}, elems...)
	} else if chance(t, 30, "umlLast") {
		elems = append(elems, uml)
	}
	root := m{"_type": "Project", "_id": projID, "name": s.Version, "ownedElements": elems}
	if rapid.Bool().Draw(t, "author") {
		root["author"] = "someone"
	}
	b, _ := json.MarshalIndent(root, "", "\t")
	return &Case{Schema: s.Sorted(), Raw: string(b)}
}

func init() {
	register(&Property{
		ID: "C07", Title: "ojson import", Quick: 8000, Rule: schemaRule, Trivial: trivialSchema,
		Scenarios: []*Scenario{{Name: "import", Weight: 1, Gen: genOjson, Check: checkImport("ojson", "ojson")}},
	})
	register(&Property{
		ID: "C08", Title: "StarUML import", Quick: 8000, Rule: schemaRule, Trivial: trivialSchema,
		Scenarios: []*Scenario{{Name: "import", Weight: 1, Gen: genStar, Check: checkImport("staruml", "mdj")}},
	})
}
