package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"
)

// C03: a generated MySQL dump together with the schema it describes.

func sqlStr(t *rapid.T, s string) string {
	var b strings.Builder
	bs := rapid.Bool().Draw(t, "bsQuote")
	for _, r := range s {
		switch {
		case r == '\'' && bs:
			b.WriteString(`\'`)
		case r == '\'':
			b.WriteString(`''`)
		case r == '\\':
			b.WriteString(`\\`)
		case r == '\n':
			b.WriteString(`\n`)
		default:
			b.WriteRune(r)
		}
	}
	return "'" + b.String() + "'"
}

type sqlType struct {
	text        string
	typ         string
	size, scale int
}

func genSQLType(t *rapid.T, c *Col) string {
	uns := func(s string) string {
		switch rapid.IntRange(0, 5).Draw(t, "uns") {
		case 4:
			return s + " unsigned"
		case 5:
			return s + " unsigned zerofill"
		}
		return s
	}
	cs := func(s string) string {
		switch rapid.IntRange(0, 9).Draw(t, "charset") {
		case 5:
			return s + " CHARACTER SET utf8mb4"
		case 6:
			return s + " CHARACTER SET utf8 COLLATE utf8_bin"
		case 7:
			return s + " COLLATE utf8mb4_bin"
		case 8:
			return s + " CHARSET latin1"
		case 9:
			return s + " binary"
		}
		return s
	}
	n := func(lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, "n") }
	set := func(typ string, size, scale int) { c.Type, c.Size, c.Scale = typ, size, scale }
	intT := func(names []string, typ string, lo, hi int) string {
		nm := pick(t, names, "intName")
		if rapid.Bool().Draw(t, "sized") {
			k := n(lo, hi)
			set(typ, k, 0)
			return uns(fmt.Sprintf("%s(%d)", nm, k))
		}
		set(typ, 0, 0)
		return uns(nm)
	}
	switch rapid.IntRange(0, 31).Draw(t, "sqlType") {
	case 0, 1:
		return intT([]string{"bigint", "bigint", "int8"}, "int64", 2, 20)
	case 2, 3:
		return intT([]string{"int", "integer", "int4"}, "int32", 2, 11)
	case 4, 5:
		k := pick(t, []int{1, 20, 40, 255, 256, 1000, 21845, 65535}, "vlen")
		set("varchar", k, 0)
		if chance(t, 10, "vcName") {
			return fmt.Sprintf("%s(%d)", pick(t, []string{"character varying", "national varchar", "nvarchar", "VARCHAR"}, "vcAlias"), k)
		}
		return cs(fmt.Sprintf("varchar(%d)", k))
	case 6:
		return intT([]string{"tinyint", "tinyint", "int1"}, "int8", 2, 4)
	case 7:
		return intT([]string{"smallint", "smallint", "int2"}, "int16", 2, 6)
	case 8:
		return intT([]string{"mediumint", "int3"}, "int24", 2, 9)
	case 9:
		set("boolean", 0, 0)
		return pick(t, []string{"tinyint(1)", "bit(1)", "bool", "boolean", "bit", "tinyint(1) unsigned"}, "boolName")
	case 10:
		k := n(2, 64)
		set("bit", k, 0)
		return fmt.Sprintf("bit(%d)", k)
	case 11:
		k := n(1, 255)
		set("char", k, 0)
		return cs(fmt.Sprintf("%s(%d)", pick(t, []string{"char", "character"}, "charName"), k))
	case 12:
		k := n(1, 255)
		set("binary", k, 0)
		return fmt.Sprintf("binary(%d)", k)
	case 13:
		k := n(1, 4000)
		set("varbinary", k, 0)
		return fmt.Sprintf("varbinary(%d)", k)
	case 14:
		a := n(1, 65)
		b := n(0, min(a, 30))
		set("decimal", a, b)
		return uns(fmt.Sprintf("%s(%d,%d)", pick(t, []string{"decimal", "numeric", "dec", "fixed"}, "decName"), a, b))
	case 15:
		a := n(1, 65)
		set("decimal", a, 0)
		return fmt.Sprintf("decimal(%d)", a)
	case 16:
		set("decimal", 0, 0)
		return "decimal"
	case 17:
		a := n(2, 53)
		b := n(1, min(a, 30))
		set("double", a, b)
		return fmt.Sprintf("%s(%d,%d)", pick(t, []string{"double", "double precision", "real"}, "dblName"), a, b)
	case 18:
		set("double", 0, 0)
		return uns(pick(t, []string{"double", "double precision", "real"}, "dblName"))
	case 19:
		a := n(2, 24)
		b := n(1, a)
		set("float", a, b)
		return fmt.Sprintf("float(%d,%d)", a, b)
	case 20:
		set("float", 0, 0)
		return uns("float")
	case 21:
		k := pick(t, []string{"tinytext:text8", "text:text16", "mediumtext:text24", "longtext:text32"}, "text")
		p := strings.Split(k, ":")
		set(p[1], 0, 0)
		return cs(p[0])
	case 22:
		k := pick(t, []string{"tinyblob:blob8", "blob:blob16", "mediumblob:blob24", "longblob:blob32"}, "blob")
		p := strings.Split(k, ":")
		set(p[1], 0, 0)
		return p[0]
	case 23:
		set("json", 0, 0)
		return "json"
	case 24:
		set("date", 0, 0)
		return "date"
	case 25, 26, 27:
		set("datetime", 0, 0)
		return pick(t, []string{"datetime", "timestamp", "datetime(6)", "timestamp(3)"}, "dt")
	case 28:
		set("time", 0, 0)
		return "time"
	case 29:
		set("year", 0, 0)
		return pick(t, []string{"year", "year(4)"}, "yr")
	default:
		typ := pick(t, []string{"enum", "set"}, "es")
		set(typ, 0, 0)
		k := rapid.IntRange(1, 4).Draw(t, "nVals")
		if chance(t, 3, "manyVals") {
			k = pick(t, []int{32, 63, 64}, "nManyVals")
			if typ == "enum" && rapid.Bool().Draw(t, "over64") {
				k = pick(t, []int{65, 70, 100, 256}, "nOver64")
			}
		}
		c.Values = genNames(t, rapid.StringMatching(`[a-zA-Z0-9][a-z0-9 _-]{0,5}`), k, nil, "ev")
		if rapid.Bool().Draw(t, "evText") {
			c.Values[0] = strings.ReplaceAll(strings.TrimSpace(genText(TextQuotes).Draw(t, "evt")), ",", ".") + "!"
		}
		var q []string
		for i := range c.Values {
			c.Values[i] = strings.TrimRight(c.Values[i], " ")
			q = append(q, sqlStr(t, c.Values[i]))
		}
		return typ + "(" + strings.Join(q, pick(t, []string{",", ", "}, "sep")) + ")"
	}
}

// genSQLDefault returns the DEFAULT clause and sets the expected value.
func genSQLDefault(t *rapid.T, c *Col, sqlText string) string {
	D := pick(t, []string{"DEFAULT ", "default "}, "kwDefault")
	num := func(vals ...string) string {
		v := pick(t, vals, "num")
		c.Default = v
		if v[0] != '-' && chance(t, 10, "plus") {
			return D + "+" + v
		}
		if rapid.Bool().Draw(t, "quotedNum") {
			return D + "'" + v + "'"
		}
		return D + v
	}
	unsigned := strings.Contains(sqlText, "unsigned")
	switch {
	case !c.NotNull && chance(t, 20, "defNull"):
		return D + "NULL"
	case isIntType(c.Type):
		if unsigned {
			return num("0", "1", "42", "100")
		}
		return num("0", "1", "42", "-1", "-128", "100")
	case c.Type == "decimal" || c.Type == "double" || c.Type == "float":
		if unsigned {
			return num("0", "1", "0.5", "12.25")
		}
		return num("0", "1", "0.5", "12.25", "-0.5", "-3", "0.00")
	case c.Type == "boolean":
		if strings.HasPrefix(sqlText, "bool") && rapid.Bool().Draw(t, "kwBool") {
			v := rapid.Bool().Draw(t, "bv")
			c.Default = map[bool]string{true: "1", false: "0"}[v]
			return D + map[bool]string{true: "TRUE", false: "FALSE"}[v]
		}
		if strings.HasPrefix(sqlText, "bit") && rapid.Bool().Draw(t, "bitLit") {
			v := rapid.Bool().Draw(t, "bv")
			c.Default = map[bool]string{true: "1", false: "0"}[v]
			return D + map[bool]string{true: pick(t, []string{"b'1'", "B'1'", "0b1", "0x01"}, "b1"), false: pick(t, []string{"b'0'", "b'00'", "x'00'"}, "b0")}[v]
		}
		return num("0", "1")
	case c.Type == "bit":
		v := uint64(rapid.IntRange(0, 1<<min(c.Size, 62)-1).Draw(t, "bitv"))
		c.Default = fmt.Sprint(v)
		return D + pick(t, []string{fmt.Sprintf("b'%b'", v), fmt.Sprintf("b'%0*b'", c.Size, v), fmt.Sprintf("0b%b", v), fmt.Sprintf("x'%016x'", v), fmt.Sprint(v)}, "bitLit")
	case c.Type == "varchar" || c.Type == "char":
		s := pick(t, []string{"noname", "0", "-", "A B", ""}, "sd")
		if s == "" || rapid.Bool().Draw(t, "sdText") {
			s += genText(TextAny).Draw(t, "sdt")
		}
		c.Default = s
		return D + pick(t, []string{"", "", "", "", "", "", "_utf8mb4"}, "intro") + sqlStr(t, s)
	case c.Type == "enum" || c.Type == "set":
		c.Default = c.Values[len(c.Values)-1]
		return D + sqlStr(t, c.Default)
	case c.Type == "date":
		c.Default = "2020-02-29"
		return D + "'2020-02-29'"
	case c.Type == "time":
		c.Default = "10:00:00"
		return D + "'10:00:00'"
	case c.Type == "year":
		c.Default = "2020"
		return D + pick(t, []string{"2020", "'2020'"}, "yd")
	case c.Type == "datetime":
		fsp := ""
		if i := strings.Index(sqlText, "("); i > 0 {
			fsp = sqlText[i:]
		}
		if rapid.Bool().Draw(t, "dtLit") {
			c.Default = "2020-01-01 00:00:00"
			return D + "'2020-01-01 00:00:00'"
		}
		c.Default = "fn::CURRENT_TIMESTAMP"
		f := pick(t, []string{"CURRENT_TIMESTAMP", "current_timestamp()", "CURRENT_TIMESTAMP()", "NOW()", "LOCALTIME", "localtimestamp()"}, "nowFn")
		if fsp != "" {
			f = "CURRENT_TIMESTAMP" + fsp
		}
		s := D + f
		if rapid.Bool().Draw(t, "onUpd") {
			c.OnUpdate = "fn::CURRENT_TIMESTAMP"
			s += " ON UPDATE " + f
		}
		return s
	}
	return ""
}

func genMysqlDump(t *rapid.T) *Case {
	nt := rapid.IntRange(1, 4).Draw(t, "nTables")
	nameOpt := NameOpt{Upper: true, Awkward: true, Under: true}
	tn := genNames(t, genName(nameOpt), nt, nil, "table")
	var sql strings.Builder
	want := &Schema{}
	if rapid.Bool().Draw(t, "prologue") {
		sql.WriteString("-- MySQL dump 10.13  Distrib 5.7\n--\n/*!40101 SET @OLD_CHARACTER_SET_CLIENT=@@CHARACTER_SET_CLIENT */;\n/*!40101 SET NAMES utf8 */;\n\n")
	}
	noise := func() {
		switch rapid.IntRange(0, 12).Draw(t, "noise") {
		case 9:
			sql.WriteString("CREATE DATABASE /*!32312 IF NOT EXISTS*/ `mydb` /*!40100 DEFAULT CHARACTER SET utf8mb4 */;\nUSE `mydb`;\n")
		case 10:
			sql.WriteString("/*!50001 CREATE VIEW `vw` AS SELECT 1 AS `id`*/;\n/*!50001 DROP VIEW IF EXISTS `vw`*/;\n")
		case 11:
			sql.WriteString("/*!40000 ALTER TABLE `zz_other` DISABLE KEYS */;\nINSERT INTO b SELECT * FROM c;\nCREATE INDEX `ix_b` ON `zz_other` (`id`);\n")
		case 4:
			sql.WriteString("-- comment; with 'quote\n")
		case 5:
			sql.WriteString("/* block comment */\n")
		case 6:
			sql.WriteString("/*!40101 SET character_set_client = utf8 */;\n")
		case 7:
			sql.WriteString("SET FOREIGN_KEY_CHECKS=0;\n")
		case 8:
			sql.WriteString("LOCK TABLES `a` WRITE;\nINSERT INTO `a` VALUES (1,'x;y'),(2,'CREATE TABLE z (a int);');\nUNLOCK TABLES;\n")
		}
	}
	for ti, name := range tn {
		noise()
		tb := &Table{Name: name}
		safe := sqlSafeName(name)
		qt := func(n string, ok bool) string {
			if ok && rapid.Bool().Draw(t, "bare") {
				return n
			}
			return "`" + n + "`"
		}
		if rapid.Bool().Draw(t, "drop") {
			fmt.Fprintf(&sql, "DROP TABLE IF EXISTS `%s`;\n", name)
		}
		up := rapid.Bool().Draw(t, "kwUpper")
		kw := func(s string) string {
			if up {
				return s
			}
			return strings.ToLower(s)
		}
		sql.WriteString(kw("CREATE TABLE "))
		if rapid.Bool().Draw(t, "ine") {
			sql.WriteString(kw("IF NOT EXISTS "))
		}
		if chance(t, 15, "qualified") {
			sql.WriteString("`mydb`.")
			fmt.Fprintf(&sql, "`%s` (\n", name)
		} else {
			sql.WriteString(qt(name, safe) + " (\n")
		}
		nc := rapid.IntRange(1, 7).Draw(t, "nCols")
		cn := genNames(t, genName(nameOpt), nc, nil, "col")
		nPK := pick(t, []int{0, 1, 1, 1, 2}, "nPK")
		if nPK > nc {
			nPK = nc
		}
		inlinePK := nPK == 1 && rapid.Bool().Draw(t, "inlinePK")
		var defs []string
		var tableUniq []string
		for i, n := range cn {
			c := &Col{Name: n}
			ty := genSQLType(t, c)
			if up {
				if k := strings.IndexAny(ty, "( "); k > 0 {
					ty = strings.ToUpper(ty[:k]) + ty[k:]
				} else {
					ty = strings.ToUpper(ty)
				}
			}
			d := qt(n, sqlSafeName(n)) + " " + ty
			low := strings.ToLower(ty)
			blob := isBlobType(c.Type) || isTextType(c.Type) || c.Type == "json"
			var opts []string
			gen := ""
			if i < nPK {
				c.PK = true
			}
			switch {
			case c.PK && !inlinePK:
				c.NotNull = true
				opts = append(opts, kw("NOT NULL"))
			case c.PK:
				c.NotNull = true
				if rapid.Bool().Draw(t, "pkNN") {
					opts = append(opts, kw("NOT NULL"))
				}
			default:
				switch rapid.IntRange(0, 2).Draw(t, "nn") {
				case 1:
					c.NotNull = true
					opts = append(opts, kw("NOT NULL"))
				case 2:
					opts = append(opts, kw("NULL"))
				}
			}
			if c.PK && nPK == 1 && isIntType(c.Type) && rapid.Bool().Draw(t, "ai") {
				c.AutoInc, c.NotNull = true, true
				opts = append(opts, kw("AUTO_INCREMENT"))
			} else if !blob && c.Type != "binary" && c.Type != "varbinary" && rapid.Bool().Draw(t, "def") {
				if s := genSQLDefault(t, c, low); s != "" {
					opts = append(opts, s)
				}
			} else if !c.PK && isIntType(c.Type) && chance(t, 10, "gen") {
				gen = pick(t, []string{" GENERATED ALWAYS AS (1) STORED", " generated always as (1 + 2) virtual", " AS (('x' = 'y'))"}, "genForm")
			}
			if c.PK && inlinePK {
				opts = append(opts, kw("PRIMARY KEY"))
			}
			if !blob && !c.PK {
				switch rapid.IntRange(0, 9).Draw(t, "uq") {
				case 7:
					c.Unique = true
					opts = append(opts, kw(pick(t, []string{"UNIQUE", "UNIQUE KEY"}, "uqKw")))
				case 8, 9:
					c.Unique = true
					tableUniq = append(tableUniq, n)
				}
			}
			if rapid.Bool().Draw(t, "cmt") {
				c.Desc = genText(TextAny).Draw(t, "comment")
				opts = append(opts, kw("COMMENT ")+sqlStr(t, c.Desc))
			}
			if len(opts) > 1 && chance(t, 35, "shuffleOpts") {
				opts = rapid.Permutation(opts).Draw(t, "optOrder")
			}
			if (c.Type == "char" || c.Type == "varchar" || isTextType(c.Type)) && !strings.Contains(low, "collate") && !strings.Contains(low, "binary") && chance(t, 8, "collateOpt") {
				k := rapid.IntRange(0, len(opts)).Draw(t, "collateAt")
				opts = append(opts[:k:k], append([]string{kw("COLLATE ") + pick(t, []string{"utf8mb4_bin", "utf8mb4_general_ci", "utf8_bin", "'utf8mb4_bin'"}, "collateName")}, opts[k:]...)...)
			}
			if chance(t, 6, "extra") {
				opts = append(opts, pick(t, []string{"COLUMN_FORMAT DYNAMIC", "STORAGE DISK", "REFERENCES `x` (`id`)", "REFERENCES x (id) ON DELETE SET NULL", "CHECK (1 > 0)", "check ((`a` is not null)) not enforced"}, "extraOpt"))
			}
			d += gen
			if len(opts) > 0 {
				d += " " + strings.Join(opts, " ")
			}
			defs = append(defs, d)
			tb.Columns = append(tb.Columns, c)
		}
		bt := func(ns []string) string {
			var q []string
			for _, n := range ns {
				if chance(t, 10, "otherCase") {
					n = strings.ToUpper(n) // column names are not case sensitive
				}
				q = append(q, "`"+n+"`")
			}
			return "(" + strings.Join(q, pick(t, []string{",", ", "}, "ksep")) + ")"
		}
		if nPK > 0 && !inlinePK {
			pre := ""
			if chance(t, 15, "pkCst") {
				pre = kw("CONSTRAINT ") + "`pk_x` "
			}
			post := ""
			if chance(t, 15, "btree") {
				post = kw(" USING BTREE")
			}
			defs = append(defs, pre+kw("PRIMARY KEY ")+bt(cn[:nPK])+post)
		}
		if len(tableUniq) > 0 {
			groups := [][]string{tableUniq}
			if len(tableUniq) > 1 && rapid.Bool().Draw(t, "uqSplit") {
				groups = [][]string{tableUniq[:1], tableUniq[1:]}
			}
			for gi, g := range groups {
				k := kw(pick(t, []string{"UNIQUE KEY", "UNIQUE INDEX", "UNIQUE"}, "uqForm"))
				pre := ""
				if chance(t, 25, "uqCst") {
					pre = kw("CONSTRAINT ")
					k = kw("UNIQUE")
					if rapid.Bool().Draw(t, "uqCstName") {
						pre += fmt.Sprintf("`cst_%d` ", gi)
					}
				}
				defs = append(defs, fmt.Sprintf("%s%s `uq_%s_%d` %s", pre, k, strings.ToLower(name), gi, bt(g)))
			}
		}
		// another unique key over the same columns changes nothing
		if len(tableUniq) > 0 && chance(t, 15, "uqAgain") {
			defs = append(defs, fmt.Sprintf("UNIQUE KEY `uq_again` %s", bt(tableUniq)))
		}
		ni := rapid.IntRange(0, 2).Draw(t, "nIdx")
		for k := 0; k < ni; k++ {
			m := rapid.IntRange(1, min(3, nc)).Draw(t, "im")
			off := rapid.IntRange(0, nc-1).Draw(t, "ioff")
			ix := &Index{Name: fmt.Sprintf("ix_%s_%d", pick(t, []string{"a", "B", "Name"}, "ixn"), k)}
			var parts []string
			for q := 0; q < m; q++ {
				cl := cn[(off+q)%nc]
				ix.Columns = append(ix.Columns, cl)
				p := "`" + cl + "`"
				switch rapid.IntRange(0, 5).Draw(t, "ipart") {
				case 4:
					p += " DESC"
				case 5:
					if ct := tb.Col(cl).Type; ct == "varchar" || isTextType(ct) || isBlobType(ct) {
						p += "(1)"
					}
				}
				parts = append(parts, p)
			}
			post := ""
			if chance(t, 20, "ixBtree") {
				post = kw(" USING BTREE")
			}
			defs = append(defs, fmt.Sprintf("%s `%s` (%s)%s", kw(pick(t, []string{"KEY", "INDEX"}, "ixKw")), ix.Name, strings.Join(parts, ","), post))
			tb.Indices = append(tb.Indices, ix)
		}
		if ti > 0 && chance(t, 30, "fk") {
			defs = append(defs, fmt.Sprintf("%s `fk_%d` %s (`%s`) %s `%s` (`id`)%s", kw("CONSTRAINT"), ti, kw("FOREIGN KEY"), cn[0], kw("REFERENCES"), tn[0],
				pick(t, []string{"", " ON DELETE CASCADE", " ON DELETE NO ACTION ON UPDATE NO ACTION"}, "fkAct")))
		}
		if chance(t, 15, "fulltext") {
			defs = append(defs, fmt.Sprintf("%s `ft_%d` (`%s`)", kw("FULLTEXT KEY"), ti, cn[nc-1]))
		}
		// keys over expressions have no place in the schema
		if chance(t, 12, "exprKey") {
			ek := kw(pick(t, []string{"KEY", "INDEX", "UNIQUE KEY", "UNIQUE"}, "ekKw"))
			e := fmt.Sprintf("((upper(`%s`)))", cn[rapid.IntRange(0, nc-1).Draw(t, "ekCol")])
			switch in := e[1 : len(e)-1]; rapid.IntRange(0, 4).Draw(t, "ekMixed") {
			case 0:
				e = fmt.Sprintf("(`%s`,%s)", cn[0], in)
			case 1:
				e = fmt.Sprintf("(%s,`%s`)", in, cn[0])
			case 2:
				if nc > 1 {
					e = fmt.Sprintf("(`%s`,%s,`%s`)", cn[0], in, cn[nc-1])
				}
			}
			defs = append(defs, fmt.Sprintf("%s `ek_%d` %s", ek, ti, e))
		}
		sql.WriteString("  " + strings.Join(defs, ",\n  ") + "\n)")
		sql.WriteString(pick(t, []string{"", " ENGINE=InnoDB", " ENGINE=InnoDB AUTO_INCREMENT=7 DEFAULT CHARSET=utf8mb4 COLLATE=utf8mb4_unicode_ci COMMENT='a; table'", " ENGINE=InnoDB\n/*!50100 PARTITION BY HASH (id) PARTITIONS 4 */", " CHARSET latin1 ROW_FORMAT=COMPRESSED"}, "tblOpts"))
		sql.WriteString(";\n")
		want.Tables = append(want.Tables, tb)
	}
	noise()
	c := &Case{Opts: map[string]string{}, Raw: sql.String()}
	drawOpt(t, c.Opts, "author", 30, "foo", "홍길동")
	drawOpt(t, c.Opts, "version", 30, "1.2.3", "v2")
	if chance(t, 35, "excl") {
		var ex []string
		for _, n := range tn {
			if chance(t, 40, "ex") {
				ex = append(ex, n)
			}
		}
		if chance(t, 30, "exNone") {
			ex = append(ex, "no_such_table")
		}
		if len(ex) > 0 {
			c.Opts["excludes"] = strings.Join(ex, ",")
			d := strSet(ex...)
			var keep []*Table
			for _, tb := range want.Tables {
				if !d[tb.Name] {
					keep = append(keep, tb)
				}
			}
			want.Tables = keep
		}
	}
	want.Author, want.Version = c.Opts["author"], c.Opts["version"]
	c.Schema = want
	return c
}

func checkMysqlDump(e *Env, c *Case) *Outcome {
	o := &Outcome{}
	schemaLabels(o, c.Schema)
	if c.flag("excludes") {
		o.label("excludes")
	}
	if _, err := mysqlParse(c.Raw); err != nil {
		infra("the generator made SQL that the parser rejects: %v\n%s", err, c.Raw)
	}
	dir, done := e.Scratch()
	defer done()
	in, out := filepath.Join(dir, "in.sql"), filepath.Join(dir, "out.json")
	write(in, []byte(c.Raw))
	args := []string{"import", "mysql", "--input", in, "--output", out}
	for _, k := range []string{"author", "version", "excludes"} {
		if v := c.opt(k); v != "" {
			args = append(args, "--"+k, v)
		}
	}
	r := e.RunOct(dir, args...)
	if !r.OK() {
		o.failf("import failed: %s\n%s", r.Brief(), c.Raw)
		return o
	}
	got, err := ParseSchema([]byte(read(out)))
	if err != nil {
		o.failf("imported file is not an octopus schema: %v", err)
		return o
	}
	if d := diffSchemas(c.Schema.Sorted(), got); d != "" {
		o.failf("import differs from the DDL: %s\n%s", d, c.Raw)
	}
	return o
}

func init() {
	register(&Property{
		ID: "C03", Title: "MySQL import is faithful", Quick: 10000,
		Rule:      "random MySQL dumps written from a random table model in varying syntax; a case is non-trivial when the model has at least two columns and a key, default, comment or index; distinct by hash of the whole case",
		Trivial:   trivialSchema,
		Scenarios: []*Scenario{{Name: "dump", Weight: 1, Gen: genMysqlDump, Check: checkMysqlDump}},
	})
}
