package main

// Edit sequences: how a schema changes from one version to the next.

import (
	"fmt"
	"reflect"
	"strings"

	"pgregory.net/rapid"
)

type EditOpt struct {
	SO          SchemaOpt
	NoAutoIncOf bool // never take auto-increment off a column in place
	NotIn       map[string]bool
	MaxEdits    int
	KeepType    bool // no in-place type changes
	FnSwap      bool // literal defaults may become functions of the same text
	AnyPlace    bool // columns may also be added first
}

// genColumn draws one column like those of genSchema.
func genColumn(t *rapid.T, so SchemaOpt, name string) *Col {
	o := so
	o.MinTables, o.MaxTables, o.MinCols, o.MaxCols = 1, 1, 1, 1
	o.Refs, o.Indices, o.ClassNames, o.Meta = false, false, false, false
	o.Groups = nil
	o.NoPKPct = 100
	o.TableText = TextNone
	c := genSchema(t, o).Tables[0].Columns[0]
	c.Name = name
	return c
}

// nearText is a text that differs from s as little as a careless comparison overlooks.
func nearText(t *rapid.T, s string, lv TextLevel) string {
	k := 3
	if lv >= TextAny && strings.TrimSpace(s) == s {
		k = 4
	}
	switch rapid.IntRange(0, k).Draw(t, "near") {
	case 0:
		return s + "."
	case 1:
		if u := strings.ToUpper(s); u != s {
			return u
		}
		return strings.ToLower(s)
	case 2:
		return strings.Replace(s, " ", "", 1)
	case 3:
		return s + s
	}
	return s + " "
}

func freshName(t *rapid.T, o NameOpt, used func(string) bool, label string) string {
	n := genName(o).Draw(t, label)
	for k := 0; used(n); k++ {
		n = fmt.Sprintf("%s_z%d", n, k)
	}
	return n
}

// editSchema applies a random sequence of edits to a copy of s and says which.
func editSchema(t *rapid.T, s *Schema, eo EditOpt) (*Schema, []string) {
	r := s.Clone()
	if eo.MaxEdits == 0 {
		eo.MaxEdits = 6
	}
	n := rapid.IntRange(0, eo.MaxEdits).Draw(t, "nEdits")
	var log []string
	usedTables := map[string]bool{}
	for _, tb := range s.Tables {
		usedTables[strings.ToLower(tb.Name)] = true
	}
	for i := 0; i < n; i++ {
		kind := pick(t, []string{"addColumn", "dropColumn", "renameColumn", "default", "notnull", "unique", "pk", "type", "desc", "tableDesc", "addTable", "dropTable", "renameTable", "autoinc", "group", "copyColumn", "replaceTable", "replaceColumn", "rekey"}, "edit")
		if eo.NotIn[kind] {
			continue
		}
		if kind == "addTable" || len(r.Tables) == 0 {
			so := eo.SO
			so.MinTables, so.MaxTables, so.Refs = 1, 1, false
			nt := genSchema(t, so).Tables[0]
			nt.Name = freshName(t, eo.SO.TableName, func(n string) bool { return usedTables[strings.ToLower(n)] }, "newTable")
			for k, x := range nt.Indices {
				x.Name = fmt.Sprintf("idx_%s_%d", nt.Name, k)
			}
			usedTables[strings.ToLower(nt.Name)] = true
			r.Tables = append(r.Tables, nt)
			log = append(log, "addTable "+nt.Name)
			continue
		}
		ti := rapid.IntRange(0, len(r.Tables)-1).Draw(t, "tableIdx")
		tb := r.Tables[ti]
		ci := rapid.IntRange(0, len(tb.Columns)-1).Draw(t, "colIdx")
		c := tb.Columns[ci]
		usedCol := func(n string) bool {
			for _, x := range tb.Columns {
				if strings.EqualFold(x.Name, n) {
					return true
				}
			}
			if o := s.Table(tb.Name); o != nil {
				for _, x := range o.Columns {
					if strings.EqualFold(x.Name, n) {
						return true
					}
				}
			}
			return false
		}
		switch kind {
		case "dropTable":
			r.Tables = append(r.Tables[:ti], r.Tables[ti+1:]...)
		case "renameTable":
			nn := freshName(t, eo.SO.TableName, func(n string) bool { return usedTables[strings.ToLower(n)] }, "tableRename")
			usedTables[strings.ToLower(nn)] = true
			tb.Name = nn
		case "replaceTable":
			// a table goes and one comes that is nearly the same
			nn := freshName(t, eo.SO.TableName, func(n string) bool { return usedTables[strings.ToLower(n)] }, "tableReplace")
			usedTables[strings.ToLower(nn)] = true
			tb.Name = nn
			switch rapid.IntRange(0, 3).Draw(t, "nearly") {
			case 0:
				k := rapid.IntRange(0, len(tb.Columns)-1).Draw(t, "swapWith")
				tb.Columns[ci], tb.Columns[k] = tb.Columns[k], tb.Columns[ci]
			case 1:
				c.NotNull = !c.NotNull
			case 2:
				c.Unique = !c.Unique
			case 3:
				if len(tb.Columns) > 1 {
					tb.Columns = tb.Columns[:len(tb.Columns)-1]
					tb.Indices = nil
				}
			}
		case "tableDesc":
			if tb.Desc != "" && chance(t, 25, "nearTableDesc") {
				tb.Desc = nearText(t, tb.Desc, eo.SO.TableText)
				break
			}
			tb.Desc = ""
			if eo.SO.TableText > TextNone && chance(t, 70, "newTableDesc") {
				tb.Desc = genText(eo.SO.TableText).Draw(t, "td")
			}
		case "group":
			if eo.SO.Groups != nil {
				tb.Group = pick(t, eo.SO.Groups, "newGroup")
			}
		case "addColumn", "copyColumn":
			nc := genColumn(t, eo.SO, freshName(t, eo.SO.ColName, usedCol, "newCol"))
			if kind == "copyColumn" { // same attributes as an existing column
				name := nc.Name
				x := *c
				nc = &x
				nc.Name, nc.AutoInc, nc.PK, nc.Ref = name, false, false, nil
			}
			at := rapid.IntRange(1, len(tb.Columns)).Draw(t, "at")
			if eo.AnyPlace {
				at = rapid.IntRange(0, len(tb.Columns)).Draw(t, "at0")
			}
			cols := append([]*Col{}, tb.Columns[:at]...)
			cols = append(cols, nc)
			tb.Columns = append(cols, tb.Columns[at:]...)
		case "dropColumn":
			if len(tb.Columns) < 2 {
				continue
			}
			if ci == 0 && !eo.AnyPlace {
				// keep the first column so that no column becomes an added first one
				continue
			}
			tb.Columns = append(append([]*Col{}, tb.Columns[:ci]...), tb.Columns[ci+1:]...)
			for _, x := range tb.Indices {
				var keep []string
				for _, k := range x.Columns {
					if k != c.Name {
						keep = append(keep, k)
					}
				}
				x.Columns = keep
			}
			var ix []*Index
			for _, x := range tb.Indices {
				if len(x.Columns) > 0 {
					ix = append(ix, x)
				}
			}
			tb.Indices = ix
		case "renameColumn":
			if ci == 0 && !eo.AnyPlace {
				// a renamed column that also changes later would be an added first one
				continue
			}
			nn := freshName(t, eo.SO.ColName, usedCol, "colRename")
			for _, x := range tb.Indices {
				for k := range x.Columns {
					if x.Columns[k] == c.Name {
						x.Columns[k] = nn
					}
				}
			}
			c.Name = nn
		case "replaceColumn":
			// a column goes and one comes that is nearly the same
			if ci == 0 && !eo.AnyPlace || c.AutoInc || c.PK || c.Ref != nil {
				continue
			}
			nn := freshName(t, eo.SO.ColName, usedCol, "colReplace")
			for _, x := range tb.Indices {
				for k := range x.Columns {
					if x.Columns[k] == c.Name {
						x.Columns[k] = nn
					}
				}
			}
			c.Name = nn
			ct := canonType(c.Type)
			switch {
			case len(c.Values) > 1 && rapid.Bool().Draw(t, "swapValues"): // the same members in another order
				c.Values = append([]string{c.Values[len(c.Values)-1]}, c.Values[:len(c.Values)-1]...)
			case (ct == "varchar" || ct == "char") && c.Default == "" && c.Size > 0 && c.Size < 200 && rapid.Bool().Draw(t, "grow"):
				c.Size++
			case c.Default != "" && rapid.Bool().Draw(t, "noDefault"):
				c.Default = ""
			case c.OnUpdate != "" && rapid.Bool().Draw(t, "noUpdate"):
				if c.OnUpdate == "fn::NOW" {
					c.OnUpdate = "fn::CURRENT_TIMESTAMP"
				} else if rapid.Bool().Draw(t, "otherUpdate") {
					c.OnUpdate = "fn::NOW"
				} else {
					c.OnUpdate = ""
				}
			case rapid.Bool().Draw(t, "nullReplace"):
				c.NotNull = !c.NotNull
			default:
				c.Unique = !c.Unique
			}
		case "default":
			if c.AutoInc {
				continue
			}
			if eo.FnSwap && c.Default != "" && c.Default == strings.TrimSpace(c.Default) && chance(t, 25, "fnSwap") {
				// the literal text becomes the function of that name, or the other way round
				if f := strings.TrimPrefix(c.Default, "fn::"); f != c.Default {
					c.Default = f
				} else {
					c.Default = "fn::" + c.Default
				}
				break
			}
			if ct := canonType(c.Type); (ct == "varchar" || ct == "char") && c.Default != "" && !strings.HasPrefix(c.Default, "fn::") && chance(t, 25, "nearDefault") {
				if d := nearText(t, c.Default, eo.SO.StringDefault); len(d) <= 40 && !strings.HasPrefix(strings.ToLower(d), "fn::") {
					c.Default = d
				}
				break
			}
			c.Default = ""
			if chance(t, 75, "newDefault") {
				if eo.SO.DefaultFn && canonType(c.Type) == "datetime" && rapid.Bool().Draw(t, "fnD") {
					c.Default = pick(t, []string{"fn::CURRENT_TIMESTAMP", "fn::CURRENT_TIMESTAMP", "fn::NOW"}, "fnE")
				} else {
					x := *c
					x.Type = canonType(c.Type)
					c.Default = genLiteralDefault(t, &x, eo.SO.StringDefault)
				}
			}
		case "notnull":
			c.NotNull = !c.NotNull
		case "unique":
			c.Unique = !c.Unique
		case "pk":
			c.PK = !c.PK
		case "rekey":
			// another key altogether, or none
			kind := pick(t, []string{"none", "all", "some", "one"}, "rekey")
			for k, x := range tb.Columns {
				switch kind {
				case "none":
					x.PK = false
				case "all":
					x.PK = k < 16
				case "some":
					x.PK = rapid.Bool().Draw(t, "inKey")
				case "one":
					x.PK = x == c
				}
				x.PK = x.PK || x.AutoInc
			}
		case "autoinc":
			if !isIntType(canonType(c.Type)) || c.AutoInc && eo.NoAutoIncOf {
				continue
			}
			c.AutoInc = !c.AutoInc
			if c.AutoInc {
				c.Default = ""
			}
		case "desc":
			if c.Desc != "" && chance(t, 25, "nearDesc") {
				c.Desc = nearText(t, c.Desc, eo.SO.ColText)
				break
			}
			c.Desc = ""
			if eo.SO.ColText > TextNone && chance(t, 70, "newDesc") {
				c.Desc = genText(eo.SO.ColText).Draw(t, "cd")
			}
		case "type":
			if c.AutoInc || eo.KeepType {
				continue
			}
			x := genColumn(t, eo.SO, c.Name)
			c.Type, c.Size, c.Scale, c.Values = x.Type, x.Size, x.Scale, x.Values
			c.Default, c.OnUpdate = x.Default, x.OnUpdate
		}
		log = append(log, fmt.Sprintf("%s %s.%s", kind, tb.Name, c.Name))
	}
	return r, log
}

// matchRenames checks that the renames a diff reports are sound and that it
// missed none: every rename joins a removed and an added item that same()
// accepts, none twice, and no removed item is left that an added one matches.
func matchRenames(removed, added []string, renames [][2]string, same func(old, new string) bool) error {
	rem, add := strSet(removed...), strSet(added...)
	for _, r := range renames {
		if !rem[r[0]] {
			return fmt.Errorf("%q is renamed but was not removed (or is renamed twice)", r[0])
		}
		if !add[r[1]] {
			return fmt.Errorf("something is renamed to %q, which is not new (or twice)", r[1])
		}
		if !same(r[0], r[1]) {
			return fmt.Errorf("%q is renamed to %q although they differ otherwise", r[0], r[1])
		}
		delete(rem, r[0])
		delete(add, r[1])
	}
	for o := range rem {
		for n := range add {
			if same(o, n) {
				return fmt.Errorf("%q became %q without any other change, but that is not reported as a rename", o, n)
			}
		}
	}
	return nil
}

// sameCols: the columns of two tables are equal in every respect.
func sameCols(a, b *Table) bool {
	return reflect.DeepEqual((&Schema{Tables: []*Table{{Columns: a.Columns}}}).JSON(), (&Schema{Tables: []*Table{{Columns: b.Columns}}}).JSON())
}

// renamedCol: the columns differ in nothing but the name (and what a rename may change).
func renamedCol(a, b *Col, desc bool) bool {
	x, y := *a, *b
	x.Name, y.Name = "", ""
	x.Ref, y.Ref = nil, nil
	if !desc {
		x.Desc, y.Desc = "", ""
	}
	return reflect.DeepEqual(x, y)
}
