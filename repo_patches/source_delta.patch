From 1332eca97dfc6f9e8568b531e66d33a71430a618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:53 +0000
Subject: [PATCH 01/77] fix: export the length of binary and varbinary columns
 to mysql DDL

---
 format/mysql/exporter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/mysql/exporter.go b/format/mysql/exporter.go
index ce395c6..4138048 100644
--- a/format/mysql/exporter.go
+++ b/format/mysql/exporter.go
@@ -138,7 +138,7 @@ func (c *Exporter) formatColumnType(colType string, col *octopus.Column) string
 func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	switch col.Type {
 	case octopus.ColTypeBinary:
-		return "binary"
+		return c.formatColumnType("binary", col)
 	case octopus.ColTypeBit:
 		return c.formatColumnType("bit", col)
 	case octopus.ColTypeBlob8:
@@ -194,7 +194,7 @@ func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	case octopus.ColTypeTime:
 		return "time"
 	case octopus.ColTypeVarbinary:
-		return "varbinary"
+		return c.formatColumnType("varbinary", col)
 	case octopus.ColTypeVarchar:
 		return c.formatColumnType("varchar", col)
 	case octopus.ColTypeYear:
-- 
2.43.0


From 36fa14b576d1ab58ab32dc3808a98434fb65f215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:54 +0000
Subject: [PATCH 02/77] fix: escape quotes and backslashes in exported mysql
 string literals

---
 format/mysql/exporter.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/format/mysql/exporter.go b/format/mysql/exporter.go
index 4138048..aed9c29 100644
--- a/format/mysql/exporter.go
+++ b/format/mysql/exporter.go
@@ -124,6 +124,20 @@ func (c *Exporter) quote(name string) string {
 	return fmt.Sprintf("`%s`", name)
 }
 
+// quoteString returns a mysql string literal.
+func (c *Exporter) quoteString(s string) string {
+	return "'" + strings.NewReplacer(`\`, `\\`, "'", "''").Replace(s) + "'"
+}
+
+// quoteStrings returns comma separated mysql string literals.
+func (c *Exporter) quoteStrings(values []string) string {
+	var quoted []string
+	for _, value := range values {
+		quoted = append(quoted, c.quoteString(value))
+	}
+	return strings.Join(quoted, ", ")
+}
+
 func (c *Exporter) formatColumnType(colType string, col *octopus.Column) string {
 	if col.Size > 0 {
 		if col.Scale > 0 {
@@ -162,7 +176,7 @@ func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	case octopus.ColTypeDouble:
 		return c.formatColumnType("double", col)
 	case octopus.ColTypeEnum:
-		return "enum(" + util.QuoteAndJoin(col.Values, "'", ", ") + ")"
+		return "enum(" + c.quoteStrings(col.Values) + ")"
 	case octopus.ColTypeFloat:
 		return c.formatColumnType("float", col)
 	case octopus.ColTypeGeometry:
@@ -182,7 +196,7 @@ func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	case octopus.ColTypePoint:
 		return "point"
 	case octopus.ColTypeSet:
-		return "set(" + util.QuoteAndJoin(col.Values, "'", ", ") + ")"
+		return "set(" + c.quoteStrings(col.Values) + ")"
 	case octopus.ColTypeText8:
 		return "tinytext"
 	case octopus.ColTypeText16:
@@ -221,7 +235,7 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 			defaultValue = defaultValue + "()"
 		} else {
 			if util.IsStringType(column.Type) {
-				defaultValue = fmt.Sprintf("'%s'", defaultValue)
+				defaultValue = c.quoteString(defaultValue)
 			}
 		}
 		constraints = append(constraints, "DEFAULT "+defaultValue)
@@ -233,14 +247,14 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 			onUpdate = onUpdate + "()"
 		} else {
 			if util.IsStringType(column.Type) {
-				onUpdate = fmt.Sprintf("'%s'", onUpdate)
+				onUpdate = c.quoteString(onUpdate)
 			}
 		}
 		constraints = append(constraints, "ON UPDATE "+onUpdate)
 	}
 
 	if column.Description != "" {
-		constraints = append(constraints, fmt.Sprintf("COMMENT '%s'", column.Description))
+		constraints = append(constraints, "COMMENT "+c.quoteString(column.Description))
 	}
 
 	return strings.Join(constraints, " ")
-- 
2.43.0


From bc3fc09ae6445b8378d057dcc1e1a75c8aa131fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:52 +0000
Subject: [PATCH 03/77] fix: quote enum, set, date and time default values in
 exported mysql DDL

---
 format/mysql/exporter.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/format/mysql/exporter.go b/format/mysql/exporter.go
index aed9c29..7b0a6df 100644
--- a/format/mysql/exporter.go
+++ b/format/mysql/exporter.go
@@ -138,6 +138,19 @@ func (c *Exporter) quoteStrings(values []string) string {
 	return strings.Join(quoted, ", ")
 }
 
+// needsQuote checks if literal value of the column should be quoted.
+func (c *Exporter) needsQuote(col *octopus.Column, value string) bool {
+	switch col.Type {
+	case octopus.ColTypeEnum, octopus.ColTypeSet:
+		return true
+	case octopus.ColTypeDate, octopus.ColTypeDateTime, octopus.ColTypeTime:
+		// leave keywords such as NULL and CURRENT_TIMESTAMP as they are
+		return value[0] >= '0' && value[0] <= '9'
+	default:
+		return util.IsStringType(col.Type)
+	}
+}
+
 func (c *Exporter) formatColumnType(colType string, col *octopus.Column) string {
 	if col.Size > 0 {
 		if col.Scale > 0 {
@@ -234,7 +247,7 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 		if fn {
 			defaultValue = defaultValue + "()"
 		} else {
-			if util.IsStringType(column.Type) {
+			if c.needsQuote(column, defaultValue) {
 				defaultValue = c.quoteString(defaultValue)
 			}
 		}
@@ -246,7 +259,7 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 		if fn {
 			onUpdate = onUpdate + "()"
 		} else {
-			if util.IsStringType(column.Type) {
+			if c.needsQuote(column, onUpdate) {
 				onUpdate = c.quoteString(onUpdate)
 			}
 		}
-- 
2.43.0


From 28d366b9a84c183d31148d6517cb6075f25f2926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:44 +0000
Subject: [PATCH 04/77] fix: import mysql varbinary columns as varbinary

---
 format/mysql/importer.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 1f4333d..d7a53ca 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -7,6 +7,7 @@ import (
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"github.com/pingcap/parser"
 	"github.com/pingcap/parser/ast"
+	"github.com/pingcap/parser/charset"
 	"github.com/pingcap/parser/mysql"
 	_ "github.com/pingcap/parser/test_driver"
 	"io"
@@ -47,9 +48,7 @@ func (c *Importer) ImportSql(sql string) (*octopus.Schema, error) {
 
 	p := parser.New()
 
-	charset := ""
-	collation := ""
-	stmtNodes, _, err := p.Parse(sql, charset, collation)
+	stmtNodes, _, err := p.Parse(sql, "", "")
 	if err != nil {
 		return nil, err
 	}
@@ -266,6 +265,9 @@ func (x *TableX) columnType(colDef *ast.ColumnDef) (string, uint16, uint16) {
 	case mysql.TypeNewDate:
 		return octopus.ColTypeDate, 0, 0
 	case mysql.TypeVarchar:
+		if colDef.Tp.Charset == charset.CharsetBin {
+			return octopus.ColTypeVarbinary, size, 0
+		}
 		return octopus.ColTypeVarchar, size, 0
 	case mysql.TypeBit:
 		if colDef.Tp.Flen == 1 {
@@ -306,7 +308,7 @@ func (x *TableX) columnType(colDef *ast.ColumnDef) (string, uint16, uint16) {
 			return octopus.ColTypeBlob16, 0, 0
 		}
 	case mysql.TypeString:
-		if colDef.Tp.Flag == mysql.BinaryFlag {
+		if colDef.Tp.Charset == charset.CharsetBin {
 			return octopus.ColTypeBinary, size, 0
 		}
 		return octopus.ColTypeChar, size, 0
-- 
2.43.0


From 3c173fed053517e086ce745059fd62cd52ff140e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:08 +0000
Subject: [PATCH 05/77] fix: import column level UNIQUE of mysql DDL

---
 format/mysql/importer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index d7a53ca..9d80d86 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -177,6 +177,8 @@ func (x *TableX) column(
 			}
 		case ast.ColumnOptionNull:
 			column.NotNull = false
+		case ast.ColumnOptionUniqKey:
+			column.UniqueKey = true
 		case ast.ColumnOptionOnUpdate:
 			switch colOption.Expr.(type) {
 			case ast.ValueExpr:
-- 
2.43.0


From a4e9b9a417029108a0120464d9d3ee86633ad69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:09 +0000
Subject: [PATCH 06/77] fix: import signed default values of mysql DDL

---
 format/mysql/importer.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 9d80d86..c04910f 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -9,6 +9,7 @@ import (
 	"github.com/pingcap/parser/ast"
 	"github.com/pingcap/parser/charset"
 	"github.com/pingcap/parser/mysql"
+	"github.com/pingcap/parser/opcode"
 	_ "github.com/pingcap/parser/test_driver"
 	"io"
 	"io/ioutil"
@@ -172,6 +173,12 @@ func (x *TableX) column(
 				column.SetDefaultValue(colOption.Expr.(ast.ValueExpr).GetValue())
 			case *ast.FuncCallExpr:
 				column.SetDefaultValueFn(colOption.Expr.(*ast.FuncCallExpr).FnName.String())
+			case *ast.UnaryOperationExpr:
+				if value, ok := x.signedValue(colOption.Expr.(*ast.UnaryOperationExpr)); ok {
+					column.SetDefaultValue(value)
+				} else {
+					fmt.Printf("unhandled default value. column: %s, expr: %v", name, colOption.Expr)
+				}
 			default:
 				fmt.Printf("unhandled default value. column: %s, expr: %v", name, colOption.Expr)
 			}
@@ -212,6 +219,23 @@ func (x *TableX) column(
 	return &column
 }
 
+// signedValue returns literal value with sign.
+// returns false if expression is not a signed literal.
+func (x *TableX) signedValue(expr *ast.UnaryOperationExpr) (string, bool) {
+	value, ok := expr.V.(ast.ValueExpr)
+	if !ok {
+		return "", false
+	}
+	switch expr.Op {
+	case opcode.Minus:
+		return fmt.Sprintf("-%v", value.GetValue()), true
+	case opcode.Plus:
+		return fmt.Sprintf("%v", value.GetValue()), true
+	default:
+		return "", false
+	}
+}
+
 func (x *TableX) columnValues(colType string, colDef *ast.ColumnDef) []string {
 	switch colType {
 	case octopus.ColTypeEnum:
-- 
2.43.0


From a1c83cf5d61ac9e71ea39ddd8df6514462d38e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:42 +0000
Subject: [PATCH 07/77] fix: keep the case of column names and match their keys
 on mysql import

---
 format/mysql/importer.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index c04910f..39958d2 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -89,7 +89,7 @@ func (x *TableX) Enter(in ast.Node) (ast.Node, bool) {
 			switch cst.Tp {
 			case ast.ConstraintPrimaryKey:
 				for _, key := range cst.Keys {
-					pkSet.Add(key.Column.Name.String())
+					pkSet.Add(key.Column.Name.L)
 				}
 			case ast.ConstraintKey:
 				break
@@ -102,7 +102,7 @@ func (x *TableX) Enter(in ast.Node) (ast.Node, bool) {
 				break
 			case ast.ConstraintUniq:
 				for _, key := range cst.Keys {
-					uniqSet.Add(key.Column.Name.String())
+					uniqSet.Add(key.Column.Name.L)
 				}
 			case ast.ConstraintUniqKey:
 				break
@@ -144,15 +144,16 @@ func (x *TableX) column(
 	pkSet *util.StringSet,
 	uniqSet *util.StringSet,
 ) *octopus.Column {
-	name := colDef.Name.String()
+	name := colDef.Name.Name.O
+	key := colDef.Name.Name.L
 	colType, colLength, colScale := x.columnType(colDef)
 	column := octopus.Column{
 		Name:       name,
 		Type:       colType,
 		Size:       colLength,
 		Scale:      colScale,
-		PrimaryKey: pkSet.Contains(name),
-		UniqueKey:  uniqSet.Contains(name),
+		PrimaryKey: pkSet.Contains(key),
+		UniqueKey:  uniqSet.Contains(key),
 		NotNull:    false,
 		Values:     x.columnValues(colType, colDef),
 	}
-- 
2.43.0


From de5009b5426a5c64c4df629a857f9d75fdc6fc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:44 +0000
Subject: [PATCH 08/77] fix: normalize all columns of schema with invalid
 column

---
 format/octopus/table.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/format/octopus/table.go b/format/octopus/table.go
index 96ce2b5..d2213f2 100644
--- a/format/octopus/table.go
+++ b/format/octopus/table.go
@@ -178,17 +178,19 @@ func (s *Schema) FromJson(data []byte) error {
 }
 
 // Normalize converts colume types to lowercase
+// All columns are normalized even if there are invalid columns. The first error is returned.
 func (s *Schema) Normalize() error {
 	sort.Sort(TableSlice(s.Tables))
 
+	var firstErr error
 	for _, table := range s.Tables {
 		for _, column := range table.Columns {
 			column.NormalizeType()
 
-			if err := column.Validate(true); err != nil {
-				return fmt.Errorf("table: '%s': %w", table.Name, err)
+			if err := column.Validate(true); err != nil && firstErr == nil {
+				firstErr = fmt.Errorf("table: '%s': %w", table.Name, err)
 			}
 		}
 	}
-	return nil
+	return firstErr
 }
-- 
2.43.0


From f9d22105f709b28e18d3b94af025b3b843112d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:14 +0000
Subject: [PATCH 09/77] fix: parse the size of column types with digits in
 their name

---
 util/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/types.go b/util/types.go
index 18b0ede..e456b5b 100644
--- a/util/types.go
+++ b/util/types.go
@@ -64,7 +64,7 @@ func IsDateType(typ string) bool {
 // ParseType parses column type
 // returns name, size, scale
 func ParseType(str string) (string, uint16, uint16) {
-	r := regexp.MustCompile(`(?m)([a-zA-Z]+)\(([0-9]+)[\s,]*([0-9]*)\)`)
+	r := regexp.MustCompile(`(?m)([a-zA-Z][a-zA-Z0-9]*)\(([0-9]+)[\s,]*([0-9]*)\)`)
 	groups, _ := MatchRegexGroups(r, str)
 	groupCount := len(groups)
 
-- 
2.43.0


From 83a721d4369788d4561ad63a561d58befe633552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:14 +0000
Subject: [PATCH 10/77] fix: export the onUpdate value to xlsx

---
 format/xlsx/exporter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/xlsx/exporter.go b/format/xlsx/exporter.go
index 5a82235..c555688 100644
--- a/format/xlsx/exporter.go
+++ b/format/xlsx/exporter.go
@@ -264,7 +264,7 @@ func getColumnAttributes(column *octopus.Column) []string {
 		attrs = append(attrs, attrDefault+"="+column.DefaultValue)
 	}
 	if column.OnUpdate != "" {
-		attrs = append(attrs, attrOnUpdate+"="+column.DefaultValue)
+		attrs = append(attrs, attrOnUpdate+"="+column.OnUpdate)
 	}
 
 	return attrs
-- 
2.43.0


From 76654e902d9915df0876a4af33b56d5fcfb32c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:16 +0000
Subject: [PATCH 11/77] fix: keep the relationship of references in xlsx export
 and import

---
 format/xlsx/exporter.go |  9 ++++++++-
 format/xlsx/importer.go | 14 +++++++++-----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/format/xlsx/exporter.go b/format/xlsx/exporter.go
index c555688..7af63cc 100644
--- a/format/xlsx/exporter.go
+++ b/format/xlsx/exporter.go
@@ -272,7 +272,14 @@ func getColumnAttributes(column *octopus.Column) []string {
 
 func getColumnReference(column *octopus.Column) string {
 	if ref := column.Ref; ref != nil {
-		return fmt.Sprintf("%s.%s", ref.Table, ref.Column)
+		prefix := ">"
+		switch ref.Relationship {
+		case octopus.RefOneToMany:
+			prefix = "<"
+		case octopus.RefOneToOne:
+			prefix = "-"
+		}
+		return fmt.Sprintf("%s%s.%s", prefix, ref.Table, ref.Column)
 	}
 	return ""
 }
diff --git a/format/xlsx/importer.go b/format/xlsx/importer.go
index e2c282f..d5a7a4c 100644
--- a/format/xlsx/importer.go
+++ b/format/xlsx/importer.go
@@ -203,16 +203,20 @@ func parseReference(s string) *octopus.Reference {
 			column := tokens[1]
 
 			if table != "" && column != "" {
-				var relationship string
-				switch []rune(table)[0] {
+				relationship := octopus.RefManyToOne
+				switch table[0] {
 				case '>':
-					relationship = octopus.RefManyToOne
+					table = table[1:]
 				case '<':
 					relationship = octopus.RefOneToMany
+					table = table[1:]
 				case '-':
 					relationship = octopus.RefOneToOne
-				default:
-					relationship = octopus.RefManyToOne
+					table = table[1:]
+				}
+				table = strings.TrimSpace(table)
+				if table == "" {
+					return nil
 				}
 				return &octopus.Reference{
 					Table:        table,
-- 
2.43.0


From cbb2628f6e5269a90e6ec9111cb29742ee89ed8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:17 +0000
Subject: [PATCH 12/77] fix: accept the documented autoinc attribute on xlsx
 import

---
 format/xlsx/constants.go | 5 ++++-
 format/xlsx/importer.go  | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/format/xlsx/constants.go b/format/xlsx/constants.go
index 9bbef06..48c448f 100644
--- a/format/xlsx/constants.go
+++ b/format/xlsx/constants.go
@@ -17,7 +17,10 @@ const (
 	keyUnique  = "U"
 	keyIndex   = "I"
 
-	attrAutoInc  = "autoInc"
+	attrAutoInc = "autoInc"
+	// attrAutoIncLower is an accepted spelling of attrAutoInc
+	attrAutoIncLower = "autoinc"
+
 	attrClass    = "class"
 	attrDefault  = "default"
 	attrOnUpdate = "onUpdate"
diff --git a/format/xlsx/importer.go b/format/xlsx/importer.go
index d5a7a4c..6351fa3 100644
--- a/format/xlsx/importer.go
+++ b/format/xlsx/importer.go
@@ -162,7 +162,7 @@ func readGroupSheet(groupName string, sheet *xlsx.Sheet) ([]*octopus.Table, erro
 				NotNull:         util.IfThenElseBool(useNotNullColumn, nullableValue != "", nullableValue == ""),
 				PrimaryKey:      keyValue == keyPrimary,
 				UniqueKey:       keyValue == keyUnique,
-				AutoIncremental: attrMap[attrAutoInc] == "true",
+				AutoIncremental: attrMap[attrAutoInc] == "true" || attrMap[attrAutoIncLower] == "true",
 				DefaultValue:    attrMap[attrDefault],
 				OnUpdate:        attrMap[attrOnUpdate],
 				Ref:             ref,
-- 
2.43.0


From 5cae89e46b34303d74c5546f5795892d7670c15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:16 +0000
Subject: [PATCH 13/77] fix: import the default value of ojson columns

---
 format/ojson/importer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/ojson/importer.go b/format/ojson/importer.go
index a02c5dc..c9d60c1 100644
--- a/format/ojson/importer.go
+++ b/format/ojson/importer.go
@@ -82,7 +82,7 @@ func (c *Importer) fromOjsonColumn(column1 *Column) *octopus.Column {
 		PrimaryKey:      column1.PrimaryKey,
 		UniqueKey:       column1.UniqueKey,
 		AutoIncremental: column1.AutoIncremental,
-		DefaultValue:    column1.Description,
+		DefaultValue:    column1.DefaultValue,
 		Ref:             ref,
 	}
 }
-- 
2.43.0


From d52ec4da2902445dfc3bfda9556c2f62c0957c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:17 +0000
Subject: [PATCH 14/77] fix: import the class name of ojson tables

---
 format/ojson/importer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/ojson/importer.go b/format/ojson/importer.go
index c9d60c1..c89aeae 100644
--- a/format/ojson/importer.go
+++ b/format/ojson/importer.go
@@ -61,6 +61,7 @@ func (c *Importer) fromOjsonTable(table1 *Table) *octopus.Table {
 		Columns:     columns,
 		Description: table1.Description,
 		Group:       table1.Group,
+		ClassName:   table1.ClassName,
 	}
 }
 
-- 
2.43.0


From d2abf61dfa78812a801152e3e1e22a0cb963a5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:34 +0000
Subject: [PATCH 15/77] fix: import numeric column lengths of starUML

---
 util/string.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/string.go b/util/string.go
index da1bcbd..736f414 100644
--- a/util/string.go
+++ b/util/string.go
@@ -18,6 +18,8 @@ func ToInt(value interface{}, defaultValue int) int {
 		return i
 	case int:
 		return value.(int)
+	case float64:
+		return int(value.(float64))
 	default:
 		return defaultValue
 	}
-- 
2.43.0


From 95b994a939136b23f5caf39d8cb260b1aaa09ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:35 +0000
Subject: [PATCH 16/77] fix: import the documentation of starUML entities

---
 format/staruml/importer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/format/staruml/importer.go b/format/staruml/importer.go
index d036f72..58cccfa 100644
--- a/format/staruml/importer.go
+++ b/format/staruml/importer.go
@@ -92,8 +92,9 @@ func (c *Importer) toSchema() (*octopus.Schema, error) {
 
 		// Create Table
 		table := &octopus.Table{
-			Name:    erdEntity.Name,
-			Columns: columns,
+			Name:        erdEntity.Name,
+			Columns:     columns,
+			Description: strings.TrimSpace(erdEntity.Documentation),
 		}
 		tables = append(tables, table)
 	}
-- 
2.43.0


From f38dbb514c0b05abcc9065151193a9ec936afd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:36 +0000
Subject: [PATCH 17/77] fix: report dangling references of starUML columns
 instead of a panic

---
 format/staruml/importer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/format/staruml/importer.go b/format/staruml/importer.go
index 58cccfa..60977a7 100644
--- a/format/staruml/importer.go
+++ b/format/staruml/importer.go
@@ -3,6 +3,7 @@ package staruml
 import (
 	"encoding/json"
 	"errors"
+	"fmt"
 	"github.com/lechuckroh/octopus-db-tools/format/octopus"
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"io/ioutil"
@@ -80,7 +81,13 @@ func (c *Importer) toSchema() (*octopus.Schema, error) {
 
 			if erdColumn.ReferenceTo != nil {
 				targetColumn := c.findById(erdColumn.ReferenceTo.Ref)
+				if targetColumn == nil || targetColumn.Parent == nil {
+					return nil, fmt.Errorf("column '%s.%s': referenced column not found", erdEntity.Name, erdColumn.Name)
+				}
 				targetTable := c.findById(targetColumn.Parent.Ref)
+				if targetTable == nil {
+					return nil, fmt.Errorf("column '%s.%s': referenced table not found", erdEntity.Name, erdColumn.Name)
+				}
 				column.Ref = &octopus.Reference{
 					Table:  targetTable.Name,
 					Column: targetColumn.Name,
-- 
2.43.0


From dd45330c593a3a0529658018e8d279383ecc45fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:48 +0000
Subject: [PATCH 18/77] fix: write function default values to liquibase as
 computed values

---
 format/liquibase/generator.go | 80 ++++++++++++++++++++---------------
 1 file changed, 47 insertions(+), 33 deletions(-)

diff --git a/format/liquibase/generator.go b/format/liquibase/generator.go
index fd59005..52308d6 100644
--- a/format/liquibase/generator.go
+++ b/format/liquibase/generator.go
@@ -270,12 +270,16 @@ type LqAddNotNullConstraint struct {
 }
 
 func newAddNotNullConstraint(table *octopus.Table, column *octopus.Column) *LqAddNotNullConstraint {
-	return &LqAddNotNullConstraint{
-		TableName:        table.Name,
-		ColumnName:       column.Name,
-		ColumnDataType:   getLiquibaseType(column),
-		DefaultNullValue: column.DefaultValue,
+	result := &LqAddNotNullConstraint{
+		TableName:      table.Name,
+		ColumnName:     column.Name,
+		ColumnDataType: getLiquibaseType(column),
 	}
+	// function can not be used as a value
+	if defaultValue, fn := column.GetDefaultValue(); !fn {
+		result.DefaultNullValue = defaultValue
+	}
+	return result
 }
 
 type LqDropNotNullConstraint struct {
@@ -307,13 +311,14 @@ func newAddAutoIncrement(table *octopus.Table, column *octopus.Column) *LqAddAut
 }
 
 type LqAddDefaultValue struct {
-	TableName           string      `yaml:"tableName"`
-	ColumnName          string      `yaml:"columnName"`
-	ColumnDataType      string      `yaml:"columnDataType,omitempty"`
-	DefaultValue        string      `yaml:"defaultValue,omitempty"`
-	DefaultValueBoolean *bool       `yaml:"defaultValueBoolean,omitempty"`
-	DefaultValueNumeric interface{} `yaml:"defaultValueNumeric,omitempty"`
-	DefaultValueDate    string      `yaml:"defaultValueDate,omitempty"`
+	TableName            string      `yaml:"tableName"`
+	ColumnName           string      `yaml:"columnName"`
+	ColumnDataType       string      `yaml:"columnDataType,omitempty"`
+	DefaultValue         string      `yaml:"defaultValue,omitempty"`
+	DefaultValueBoolean  *bool       `yaml:"defaultValueBoolean,omitempty"`
+	DefaultValueNumeric  interface{} `yaml:"defaultValueNumeric,omitempty"`
+	DefaultValueDate     string      `yaml:"defaultValueDate,omitempty"`
+	DefaultValueComputed string      `yaml:"defaultValueComputed,omitempty"`
 }
 
 func newAddDefaultValue(table *octopus.Table, column *octopus.Column) (*LqAddDefaultValue, error) {
@@ -321,13 +326,14 @@ func newAddDefaultValue(table *octopus.Table, column *octopus.Column) (*LqAddDef
 		return nil, err
 	} else {
 		return &LqAddDefaultValue{
-			TableName:           table.Name,
-			ColumnName:          column.Name,
-			ColumnDataType:      getLiquibaseType(column),
-			DefaultValue:        dv.DefaultValue,
-			DefaultValueBoolean: dv.DefaultValueBoolean,
-			DefaultValueNumeric: dv.DefaultValueNumeric,
-			DefaultValueDate:    dv.DefaultValueDate,
+			TableName:            table.Name,
+			ColumnName:           column.Name,
+			ColumnDataType:       getLiquibaseType(column),
+			DefaultValue:         dv.DefaultValue,
+			DefaultValueBoolean:  dv.DefaultValueBoolean,
+			DefaultValueNumeric:  dv.DefaultValueNumeric,
+			DefaultValueDate:     dv.DefaultValueDate,
+			DefaultValueComputed: dv.DefaultValueComputed,
 		}, nil
 	}
 }
@@ -399,15 +405,21 @@ func newDropUniqueConstraint(table *octopus.Table, uniqueConstraintName string)
 // ----------------------------------------------------------------------------
 
 type LqDefaultValue struct {
-	DefaultValue        string      `yaml:"defaultValue,omitempty"`
-	DefaultValueBoolean *bool       `yaml:"defaultValueBoolean,omitempty"`
-	DefaultValueNumeric interface{} `yaml:"defaultValueNumeric,omitempty"`
-	DefaultValueDate    string      `yaml:"defaultValueDate,omitempty"`
+	DefaultValue         string      `yaml:"defaultValue,omitempty"`
+	DefaultValueBoolean  *bool       `yaml:"defaultValueBoolean,omitempty"`
+	DefaultValueNumeric  interface{} `yaml:"defaultValueNumeric,omitempty"`
+	DefaultValueDate     string      `yaml:"defaultValueDate,omitempty"`
+	DefaultValueComputed string      `yaml:"defaultValueComputed,omitempty"`
 }
 
 func newLqDefaultValue(column *octopus.Column) (*LqDefaultValue, error) {
 	result := LqDefaultValue{}
 
+	if fnName, fn := column.GetDefaultValue(); fn {
+		result.DefaultValueComputed = fnName
+		return &result, nil
+	}
+
 	if util.IsStringType(column.Type) {
 		result.DefaultValue = column.DefaultValue
 	} else if util.IsBooleanType(column.Type) {
@@ -436,16 +448,17 @@ func newLqDefaultValue(column *octopus.Column) (*LqDefaultValue, error) {
 }
 
 type LqColumn struct {
-	Name                string         `yaml:"name"`
-	Type                string         `yaml:"type"`
-	AutoIncrement       *bool          `yaml:"autoIncrement,omitempty"`
-	Constraints         *LqConstraints `yaml:"constraints,omitempty"`
-	Remarks             string         `yaml:"remarks,omitempty"`
-	DefaultValue        string         `yaml:"defaultValue,omitempty"`
-	DefaultValueBoolean *bool          `yaml:"defaultValueBoolean,omitempty"`
-	DefaultValueNumeric interface{}    `yaml:"defaultValueNumeric,omitempty"`
-	DefaultValueDate    string         `yaml:"defaultValueDate,omitempty"`
-	AfterColumn         string         `yaml:"afterColumn,omitempty"`
+	Name                 string         `yaml:"name"`
+	Type                 string         `yaml:"type"`
+	AutoIncrement        *bool          `yaml:"autoIncrement,omitempty"`
+	Constraints          *LqConstraints `yaml:"constraints,omitempty"`
+	Remarks              string         `yaml:"remarks,omitempty"`
+	DefaultValue         string         `yaml:"defaultValue,omitempty"`
+	DefaultValueBoolean  *bool          `yaml:"defaultValueBoolean,omitempty"`
+	DefaultValueNumeric  interface{}    `yaml:"defaultValueNumeric,omitempty"`
+	DefaultValueDate     string         `yaml:"defaultValueDate,omitempty"`
+	DefaultValueComputed string         `yaml:"defaultValueComputed,omitempty"`
+	AfterColumn          string         `yaml:"afterColumn,omitempty"`
 }
 
 func newLqColumn(column *octopus.Column, createSeparatePK bool, createSeparateUq bool) (*LqColumn, error) {
@@ -487,6 +500,7 @@ func newLqColumn(column *octopus.Column, createSeparatePK bool, createSeparateUq
 			lc.DefaultValueBoolean = dv.DefaultValueBoolean
 			lc.DefaultValueNumeric = dv.DefaultValueNumeric
 			lc.DefaultValueDate = dv.DefaultValueDate
+			lc.DefaultValueComputed = dv.DefaultValueComputed
 		}
 	}
 	return &lc, nil
-- 
2.43.0


From e5b7797107c2793fcaed2ed773f8d96a58ce73aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:49 +0000
Subject: [PATCH 19/77] fix: write boolean default value 1 to liquibase as true

---
 format/liquibase/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/liquibase/generator.go b/format/liquibase/generator.go
index 52308d6..cc5cd39 100644
--- a/format/liquibase/generator.go
+++ b/format/liquibase/generator.go
@@ -423,7 +423,7 @@ func newLqDefaultValue(column *octopus.Column) (*LqDefaultValue, error) {
 	if util.IsStringType(column.Type) {
 		result.DefaultValue = column.DefaultValue
 	} else if util.IsBooleanType(column.Type) {
-		result.DefaultValueBoolean = NewBool(column.DefaultValue == "true")
+		result.DefaultValueBoolean = NewBool(column.DefaultValue == "true" || column.DefaultValue == "1")
 	} else if util.IsNumericType(column.Type) {
 		if util.IsIntType(column.Type) {
 			if num, err := strconv.Atoi(column.DefaultValue); err != nil {
-- 
2.43.0


From f4d890e2744e33a8e7390d5e0ef19a66ab557fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:51 +0000
Subject: [PATCH 20/77] fix: write the values of enum and set columns to
 liquibase

---
 format/liquibase/diff.go      | 4 +++-
 format/liquibase/generator.go | 6 ++++++
 format/octopus/column.go      | 3 ++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index 1c6594c..54666c7 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -7,6 +7,7 @@ import (
 	"gopkg.in/yaml.v2"
 	"io/ioutil"
 	"log"
+	"strings"
 )
 
 type DiffOption struct {
@@ -319,7 +320,8 @@ func (c *Diff) diffColumn(
 		changeSets = append(changeSets, changeSet)
 	}
 
-	if column.Type != oldColumn.Type || column.Size != oldColumn.Size || column.Scale != oldColumn.Scale {
+	if column.Type != oldColumn.Type || column.Size != oldColumn.Size || column.Scale != oldColumn.Scale ||
+		strings.Join(column.Values, "\n") != strings.Join(oldColumn.Values, "\n") {
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
 		changeSet.Append("modifyDataType", newModifyDataType(table, column))
 		changeSets = append(changeSets, changeSet)
diff --git a/format/liquibase/generator.go b/format/liquibase/generator.go
index cc5cd39..ae40d4d 100644
--- a/format/liquibase/generator.go
+++ b/format/liquibase/generator.go
@@ -618,6 +618,12 @@ func getLiquibaseType(column *octopus.Column) string {
 		fallthrough
 	case octopus.ColTypeBlob32:
 		typ = "blob"
+	case octopus.ColTypeEnum, octopus.ColTypeSet:
+		var values []string
+		for _, value := range column.Values {
+			values = append(values, "'"+strings.ReplaceAll(value, "'", "''")+"'")
+		}
+		return column.Type + "(" + strings.Join(values, ",") + ")"
 	default:
 		typ = column.Type
 	}
diff --git a/format/octopus/column.go b/format/octopus/column.go
index 8aae547..f9f0164 100644
--- a/format/octopus/column.go
+++ b/format/octopus/column.go
@@ -94,7 +94,8 @@ func (c *Column) IsRenamed(target *Column, excludeDescription bool) bool {
 		c.UniqueKey == target.UniqueKey &&
 		c.AutoIncremental == target.AutoIncremental &&
 		c.DefaultValue == target.DefaultValue &&
-		c.OnUpdate == target.OnUpdate
+		c.OnUpdate == target.OnUpdate &&
+		strings.Join(c.Values, "\n") == strings.Join(target.Values, "\n")
 }
 
 func (c *Column) Validate(autoCorrect bool) error {
-- 
2.43.0


From 9e4e11bfa33c97d03207c01f01e31e10509b5603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:52 +0000
Subject: [PATCH 21/77] fix: use the unique name suffix in liquibase diff

---
 format/diff/cli.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/format/diff/cli.go b/format/diff/cli.go
index 54e7ca0..58e7039 100644
--- a/format/diff/cli.go
+++ b/format/diff/cli.go
@@ -75,6 +75,8 @@ func LiquibaseAction(c *cli.Context) error {
 			DiffTo:      toSchema,
 			TableFilter: octopus.GetTableFilterFn(c.String(FlagGroups)),
 			UseComments: c.Bool(FlagUseComments),
+
+			UniqueNameSuffix: c.String(FlagUniqueNameSuffix),
 		},
 	).Generate(c.String(FlagOutput))
 }
-- 
2.43.0


From 5dfeccab0610f0045edad63c14e2434701c53a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:54 +0000
Subject: [PATCH 22/77] fix: drop and add only existing unique constraints in
 liquibase diff

---
 format/liquibase/diff.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index 54666c7..63121c4 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -227,7 +227,7 @@ func (c *Diff) diffTable(
 	uniqueChanged := !uqSet.Equals(oldUqSet)
 
 	// drop unique constraint
-	if uniqueChanged {
+	if uniqueChanged && oldUqSet.Size() > 0 {
 		uniqueConstraintName := table.Name + uniqueNameSuffix
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
 		changeSet.Append("dropUniqueConstraint", newDropUniqueConstraint(table, uniqueConstraintName))
@@ -290,13 +290,11 @@ func (c *Diff) diffTable(
 	}
 
 	// add unique constraint
-	if uniqueChanged {
+	if uniqueChanged && uqSet.Size() > 0 {
 		uniqueConstraintName := table.Name + uniqueNameSuffix
+		uniqueColumeNames := uqSet.Join(", ")
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
-		if uqSet.Size() > 0 {
-			uniqueColumeNames := uqSet.Join(", ")
-			changeSet.Append("addUniqueConstraint", newAddUniqueConstraint(table, uniqueColumeNames, uniqueConstraintName))
-		}
+		changeSet.Append("addUniqueConstraint", newAddUniqueConstraint(table, uniqueColumeNames, uniqueConstraintName))
 		changeSets = append(changeSets, changeSet)
 	}
 
-- 
2.43.0


From 883f6c4e49a986902f4d23db24cf1c9903a25d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:55 +0000
Subject: [PATCH 23/77] fix: do not drop the tables of other groups in diff

---
 format/diff/diff.go      | 11 +++++++++--
 format/liquibase/diff.go | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index 258bd25..d3f6c03 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -35,8 +35,15 @@ func getDiff(option *Option) (*Result, error) {
 	var addedTables []*octopus.Table
 	renamedTableMap := make(map[*octopus.Table]*octopus.Table)
 	removedTableNames := util.NewStringSet()
-	for name := range fromTableByName {
-		removedTableNames.Add(name)
+	toTableByName := option.DiffTo.TablesByName()
+	for name, table := range fromTableByName {
+		// skip tables of other groups, and tables moved to other groups
+		if option.TableFilter != nil && !option.TableFilter(table) {
+			continue
+		}
+		if toTableByName[name] == nil {
+			removedTableNames.Add(name)
+		}
 	}
 
 	id := newChangeSetID()
diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index 63121c4..c611aa2 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -54,8 +54,15 @@ func (c *Diff) generate() ([]byte, error) {
 	var addedTables []*octopus.Table
 	renamedTableMap := make(map[*octopus.Table]*octopus.Table)
 	removedTableNames := util.NewStringSet()
-	for name := range fromTableByName {
-		removedTableNames.Add(name)
+	toTableByName := option.DiffTo.TablesByName()
+	for name, table := range fromTableByName {
+		// skip tables of other groups, and tables moved to other groups
+		if option.TableFilter != nil && !option.TableFilter(table) {
+			continue
+		}
+		if toTableByName[name] == nil {
+			removedTableNames.Add(name)
+		}
 	}
 
 	id := newLqId()
-- 
2.43.0


From 326841ea8d80a2df079c7c6680f4201e2ac3195f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:57 +0000
Subject: [PATCH 24/77] fix: write renames of diff in a fixed order

---
 format/diff/diff.go      | 12 ++++++++++--
 format/liquibase/diff.go | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index d3f6c03..96b204a 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -100,7 +100,11 @@ func getDiff(option *Option) (*Result, error) {
 	}
 
 	// renamed tables
-	for newTable, oldTable := range renamedTableMap {
+	for _, newTable := range addedTables {
+		oldTable, ok := renamedTableMap[newTable]
+		if !ok {
+			continue
+		}
 		id.bumpMajor()
 
 		// drop old unique constraint
@@ -231,7 +235,11 @@ func diffTable(
 	}
 
 	// renamed columns
-	for newColumn, oldColumn := range renamedColumnMap {
+	for _, newColumn := range addedColumns {
+		oldColumn, ok := renamedColumnMap[newColumn]
+		if !ok {
+			continue
+		}
 		changeSet := newDiffChangeSet(id.bumpMinor(), author)
 		changeSet.Add(&RenameColumn{Table: table, OldColumn: oldColumn, NewColumn: newColumn})
 		changeSets = append(changeSets, changeSet)
diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index c611aa2..8bf48be 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -119,7 +119,11 @@ func (c *Diff) generate() ([]byte, error) {
 	}
 
 	// renamed tables
-	for newTable, oldTable := range renamedTableMap {
+	for _, newTable := range addedTables {
+		oldTable, ok := renamedTableMap[newTable]
+		if !ok {
+			continue
+		}
 		id.bumpMajor()
 
 		// drop old unique constraint
@@ -249,7 +253,11 @@ func (c *Diff) diffTable(
 	}
 
 	// renamed columns
-	for newColumn, oldColumn := range renamedColumnMap {
+	for _, newColumn := range addedColumns {
+		oldColumn, ok := renamedColumnMap[newColumn]
+		if !ok {
+			continue
+		}
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
 		changeSet.Append("renameColumn", newRenameColumn(table, newColumn, oldColumn))
 		changeSets = append(changeSets, changeSet)
-- 
2.43.0


From 82de7bc43e471efb3562294632cb1f9b811f5bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:58 +0000
Subject: [PATCH 25/77] fix: report added columns in diff

---
 format/diff/diff.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index 96b204a..0074836 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -264,6 +264,7 @@ func diffTable(
 				AfterColumn:  nil,
 			})
 		}
+		changeSets = append(changeSets, changeSet)
 	}
 
 	// primary key
-- 
2.43.0


From 651b10cc8928f4abc34266e722ca59e27c4550d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:00 +0000
Subject: [PATCH 26/77] fix: write valid SQL for added columns in flyway diff

---
 format/diff/mysql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index 120f678..0fabb10 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -118,7 +118,7 @@ func (b *MysqlQueryBuilder) toAddColumnSQL(c *AddColumn) ([]string, error) {
 	columnType := b.mysqlExporter.ToMysqlColumnType(column)
 	colConstraints := b.mysqlExporter.ColumnConstraints(column)
 
-	sql := fmt.Sprintf("ALTER TABLE %s MODIFY ADD %s %s", tableName, column.Name, columnType)
+	sql := fmt.Sprintf("ALTER TABLE %s ADD %s %s", tableName, column.Name, columnType)
 	if colConstraints != "" {
 		sql += " " + colConstraints
 	}
-- 
2.43.0


From 6b911dba428b9c830d9913639d643777b5c6b651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:01 +0000
Subject: [PATCH 27/77] fix: remove auto increment in flyway diff

---
 format/diff/mysql.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index 0fabb10..1e42f91 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -165,17 +165,11 @@ func (b *MysqlQueryBuilder) toSetAutoIncrementSQL(c *SetAutoIncrement) ([]string
 	columnName := column.Name
 	columnType := b.mysqlExporter.ToMysqlColumnType(column)
 
-	var sql string
-	if c.Column.AutoIncremental {
-		sql = strings.Join([]string{
-			fmt.Sprintf("ALTER TABLE %s MODIFY COLUMN %s %s", tableName, columnName, columnType),
-			b.mysqlExporter.ColumnConstraints(column),
-		}, " ") + ";"
-	} else {
-		sql = fmt.Sprintf("ALTER TABLE %s MODIFY COLUMN %s %s AUTO_INCREMENT PRIMARY KEY;",
-			tableName, columnName, columnType)
+	sql := fmt.Sprintf("ALTER TABLE %s MODIFY COLUMN %s %s", tableName, columnName, columnType)
+	if colConstraints := b.mysqlExporter.ColumnConstraints(column); colConstraints != "" {
+		sql += " " + colConstraints
 	}
-	return []string{sql}, nil
+	return []string{sql + ";"}, nil
 }
 
 func (b *MysqlQueryBuilder) toSetDefaultValueSQL(c *SetDefaultValue) ([]string, error) {
-- 
2.43.0


From 5051b44400ce0fd1a989374ab522ff22dc527e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:03 +0000
Subject: [PATCH 28/77] fix: keep the other attributes of columns when changing
 nullability in flyway diff

---
 format/diff/mysql.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index 1e42f91..ff610c8 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -150,13 +150,11 @@ func (b *MysqlQueryBuilder) toSetNotNullConstraintSQL(c *SetNotNullConstraint) (
 	column := c.Column
 	columnType := b.mysqlExporter.ToMysqlColumnType(column)
 
-	var sql string
-	if column.NotNull {
-		sql = fmt.Sprintf("ALTER TABLE %s MODIFY %s %s NOT NULL;", tableName, column.Name, columnType)
-	} else {
-		sql = fmt.Sprintf("ALTER TABLE %s MODIFY %s %s;", tableName, column.Name, columnType)
+	sql := fmt.Sprintf("ALTER TABLE %s MODIFY %s %s", tableName, column.Name, columnType)
+	if colConstraints := b.mysqlExporter.ColumnConstraints(column); colConstraints != "" {
+		sql += " " + colConstraints
 	}
-	return []string{sql}, nil
+	return []string{sql + ";"}, nil
 }
 
 func (b *MysqlQueryBuilder) toSetAutoIncrementSQL(c *SetAutoIncrement) ([]string, error) {
-- 
2.43.0


From dccd00d280529aabdd267dbce73b59c76171f440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:04 +0000
Subject: [PATCH 29/77] fix: drop only existing primary keys in flyway diff

---
 format/diff/mysql.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index ff610c8..9aa1878 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -86,8 +86,9 @@ func (b *MysqlQueryBuilder) toUpdatePrimaryKeySQL(c *UpdatePrimaryKey) ([]string
 	tableName := table.Name
 	pkColumnNames := table.PrimaryKeyNameSet().Slice()
 
-	result := []string{
-		fmt.Sprintf("ALTER TABLE %s DROP PRIMARY KEY;", tableName),
+	var result []string
+	if c.OldTable.PrimaryKeyNameSet().Size() > 0 {
+		result = append(result, fmt.Sprintf("ALTER TABLE %s DROP PRIMARY KEY;", tableName))
 	}
 
 	if len(pkColumnNames) > 0 {
-- 
2.43.0


From 06641cc3e37c0f6a1e487810d13c961f57fce58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:25 +0000
Subject: [PATCH 30/77] fix: set the comment of renamed tables in diff

---
 format/diff/diff.go      | 7 +++++++
 format/liquibase/diff.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index 0074836..116d8be 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -124,6 +124,13 @@ func getDiff(option *Option) (*Result, error) {
 			result.Add(changeSet)
 		}
 
+		// table comment
+		if useComments && newTable.Description != oldTable.Description {
+			changeSet := newDiffChangeSet(id.bumpMinor(), author)
+			changeSet.Add(&SetTableComment{Table: newTable})
+			result.Add(changeSet)
+		}
+
 		// add new unique constraint
 		newUqSet := newTable.UniqueKeyNameSet()
 		if newUqSet.Size() > 0 {
diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index 8bf48be..e932792 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -140,6 +140,13 @@ func (c *Diff) generate() ([]byte, error) {
 			result.AddChangeSet(changeSet)
 		}
 
+		// table comment
+		if useComments && newTable.Description != oldTable.Description {
+			changeSet := newLqChangeSet(id.bumpMinor(), author)
+			changeSet.Append("setTableRemarks", newSetTableRemarks(newTable))
+			result.AddChangeSet(changeSet)
+		}
+
 		// add new unique constraint
 		newUqSet := newTable.UniqueKeyNameSet()
 		if newUqSet.Size() > 0 {
-- 
2.43.0


From 2225eec48655975cfdb04db43f938f0470c90661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:53 +0000
Subject: [PATCH 31/77] fix: import null in gorm only if it is used

---
 format/gorm/gorm.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/format/gorm/gorm.go b/format/gorm/gorm.go
index d66b8c2..f0f2a0f 100644
--- a/format/gorm/gorm.go
+++ b/format/gorm/gorm.go
@@ -97,9 +97,6 @@ func NewGoField(column *octopus.Column) *GoField {
 	var fieldType string
 	importSet := util.NewStringSet()
 	nullable := !column.NotNull
-	if nullable {
-		importSet.Add("gopkg.in/guregu/null.v4")
-	}
 
 	columnType := strings.ToLower(column.Type)
 	switch columnType {
@@ -200,6 +197,9 @@ func NewGoField(column *octopus.Column) *GoField {
 	default:
 		fieldType = "interface{}"
 	}
+	if strings.HasPrefix(fieldType, "null.") {
+		importSet.Add("gopkg.in/guregu/null.v4")
+	}
 
 	fieldName, ok := util.ToUpperCamel(column.Name)
 	overrideName := !ok
-- 
2.43.0


From 97332df0be3a9f1043a3ada47525487f70f599e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:53 +0000
Subject: [PATCH 32/77] fix: disable gorm.Model with --embed gorm.Model:

---
 format/gorm/gorm_model.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/gorm/gorm_model.go b/format/gorm/gorm_model.go
index 0259bad..94d5120 100644
--- a/format/gorm/gorm_model.go
+++ b/format/gorm/gorm_model.go
@@ -83,6 +83,10 @@ func extractEmbeddedModels(fields []*GoField) EmbeddedModels {
 
 	result := EmbeddedModels{}
 	for name, model := range embeddedModels {
+		// disabled
+		if len(model.ColumnNames) == 0 {
+			continue
+		}
 		if columnNameSet.ContainsAll(model.ColumnNames) {
 			result[name] = model
 			columnNameSet.RemoveAll(model.ColumnNames)
-- 
2.43.0


From 86e44f7c3e0566c16c148a580630af2855b3184d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:53 +0000
Subject: [PATCH 33/77] fix: embed gorm models in a fixed order

---
 format/gorm/gorm_model.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/format/gorm/gorm_model.go b/format/gorm/gorm_model.go
index 94d5120..4f9833e 100644
--- a/format/gorm/gorm_model.go
+++ b/format/gorm/gorm_model.go
@@ -3,6 +3,7 @@ package gorm
 import (
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"regexp"
+	"sort"
 	"strings"
 )
 
@@ -54,6 +55,7 @@ func (m EmbeddedModels) Names() []string {
 	for name, _ := range m {
 		names = append(names, name)
 	}
+	sort.Strings(names)
 	return names
 }
 
@@ -82,7 +84,8 @@ func extractEmbeddedModels(fields []*GoField) EmbeddedModels {
 	}
 
 	result := EmbeddedModels{}
-	for name, model := range embeddedModels {
+	for _, name := range embeddedModels.Names() {
+		model := embeddedModels[name]
 		// disabled
 		if len(model.ColumnNames) == 0 {
 			continue
-- 
2.43.0


From 093739c5cf2dfafcdd5f5fa910b4edf2b1ba9b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:37 +0000
Subject: [PATCH 34/77] fix: kotlin properties of types without a default value
 had an empty initializer

---
 format/jpa/kotlin-gen.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 4c2bcc2..3e400be 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -175,9 +175,9 @@ data class {{.Class.Name}}(
     {{end}}
     {{- if .Column.NotNull}}
 		{{- if eq . $.IdEntityField}}
-        override var {{.Name}}: {{.Type}} = {{.DefaultValue}},
+        override var {{.Name}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}},
 		{{- else}}
-        var {{.Name}}: {{.Type}} = {{.DefaultValue}}{{if hasNext . $.Class.Fields}},{{end}}
+        var {{.Name}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}}{{if hasNext . $.Class.Fields}},{{end}}
 		{{- end}}
     {{- else}}
         var {{.Name}}: {{.Type}}{{if hasNext . $.Class.Fields}},{{end}}
@@ -192,7 +192,7 @@ data class {{.Class.Name}}(
 {{- if ne .IdClassName ""}}
 data class {{.IdClassName}}(
 {{- range .Class.PKFields}}
-        var {{.Name}}: {{.Type}} = {{.DefaultValue}}{{if hasNext . $.Class.PKFields}},{{end}}
+        var {{.Name}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}}{{if hasNext . $.Class.PKFields}},{{end}}
 {{- end}}
 ): Serializable
 {{- end}}
-- 
2.43.0


From c796f342a532d8f9e2e7e47c0fac08870c216e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:39 +0000
Subject: [PATCH 35/77] fix: a nullable id of a kotlin class with idEntity did
 not override the id of the interface

---
 format/jpa/kotlin-gen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 3e400be..625a82b 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -175,12 +175,12 @@ data class {{.Class.Name}}(
     {{end}}
     {{- if .Column.NotNull}}
 		{{- if eq . $.IdEntityField}}
-        override var {{.Name}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}},
+        override var {{.Name}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}}{{if hasNext . $.Class.Fields}},{{end}}
 		{{- else}}
         var {{.Name}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}}{{if hasNext . $.Class.Fields}},{{end}}
 		{{- end}}
     {{- else}}
-        var {{.Name}}: {{.Type}}{{if hasNext . $.Class.Fields}},{{end}}
+        {{if eq . $.IdEntityField}}override {{end}}var {{.Name}}: {{.Type}}{{if hasNext . $.Class.Fields}},{{end}}
     {{- end}}
 {{end}}
 {{- if eq .SuperClass ""}}
-- 
2.43.0


From 00d2e9ccb82f733d4d3df8cce8d3eba7b411e1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:41 +0000
Subject: [PATCH 36/77] fix: without a package kotlin classes were written to
 the current directory with an empty package line

---
 format/jpa/kotlin-gen.go | 7 ++++---
 util/io.go               | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 625a82b..8a065b9 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -149,9 +149,9 @@ func (c *KtGenerator) GenerateEntityClass(
 
 	// template
 	tplText := `{{"" -}}
-package {{.Package}}
+{{if .Package}}package {{.Package}}
 
-{{range .Imports}}import {{.}}
+{{end}}{{range .Imports}}import {{.}}
 {{end}}
 {{range .JavaImports}}import {{.}}
 {{end}}
@@ -374,7 +374,8 @@ func (c *KtGenerator) generateRepository(
 	tplString := `{{"" -}}
 package {{.ReposPackage}}
 
-import {{.EntityPackage}}.*
+{{if .EntityPackage}}import {{.EntityPackage}}.*
+{{end -}}
 import org.springframework.data.jpa.repository.JpaRepository
 import org.springframework.stereotype.Repository
 
diff --git a/util/io.go b/util/io.go
index 6625fff..3a13c24 100644
--- a/util/io.go
+++ b/util/io.go
@@ -10,10 +10,10 @@ import (
 
 // MkdirPackage creates nested package directories.
 func MkdirPackage(basedir, pkgName string) (string, error) {
-	if pkgName == "" {
-		return "", nil
+	dir := basedir
+	if pkgName != "" {
+		dir = path.Join(append([]string{basedir}, strings.Split(pkgName, ".")...)...)
 	}
-	dir := path.Join(append([]string{basedir}, strings.Split(pkgName, ".")...)...)
 	if err := os.MkdirAll(dir, 0777); err != nil {
 		return "", err
 	}
-- 
2.43.0


From 38ca72f6e3cd90734f48dad0c8a57025e6b6ad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:42 +0000
Subject: [PATCH 37/77] fix: reposPackage panicked on a table without primary
 key

---
 format/jpa/kotlin-gen.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 8a065b9..854ee24 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -341,6 +341,10 @@ func (c *KtGenerator) generateRepositories(outputPath string) error {
 	}
 
 	for _, class := range classes {
+		// no repository without an id type
+		if len(class.PKFields) == 0 {
+			continue
+		}
 		buf := new(bytes.Buffer)
 		if err := c.generateRepository(buf, class, outputPackage, reposPackage); err != nil {
 			return err
-- 
2.43.0


From f9f0596edb85e07296170abaa3ac8d142953be80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:44 +0000
Subject: [PATCH 38/77] fix: kotlin unique constraints named columns that do
 not exist when the column name is set explicitly

---
 format/jpa/kotlin-gen.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 854ee24..7f78240 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -230,7 +230,11 @@ data class {{.IdClassName}}(
 	// unique constraint
 	var uniqueFieldNames []string
 	for _, field := range class.UniqueFields {
-		uniqueFieldNames = append(uniqueFieldNames, util.Quote(field.Name, "\""))
+		columnName := field.Name
+		if field.OverrideName {
+			columnName = field.Column.Name
+		}
+		uniqueFieldNames = append(uniqueFieldNames, util.Quote(columnName, "\""))
 	}
 
 	// imports
-- 
2.43.0


From b310977725bfeca160364f22b55ed5693929a576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:45 +0000
Subject: [PATCH 39/77] fix: kotlin properties of columns like line_1 and api_k
 lacked the column name

---
 format/jpa/kotlin.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/format/jpa/kotlin.go b/format/jpa/kotlin.go
index 0558cb6..b44ddb7 100644
--- a/format/jpa/kotlin.go
+++ b/format/jpa/kotlin.go
@@ -4,9 +4,12 @@ import (
 	"github.com/iancoleman/strcase"
 	"github.com/lechuckroh/octopus-db-tools/format/octopus"
 	"github.com/lechuckroh/octopus-db-tools/util"
+	"regexp"
 	"strings"
 )
 
+var plainSnakeCase = regexp.MustCompile(`^[a-z]+(_[a-z]{2,})*$`)
+
 type KotlinClass struct {
 	table        *octopus.Table
 	Name         string
@@ -163,6 +166,8 @@ func NewKotlinField(column *octopus.Column) *KotlinField {
 	}
 
 	fieldName, ok := util.ToLowerCamel(column.Name)
+	// naming strategies do not restore names with numbers or single letter words
+	ok = ok && plainSnakeCase.MatchString(column.Name)
 
 	return &KotlinField{
 		Column:       column,
-- 
2.43.0


From 5c21b841384ce7b2f77fb8757ce65f9186514bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:09 +0000
Subject: [PATCH 40/77] fix: kotlin properties named like a keyword or starting
 with a digit were not quoted

---
 format/jpa/kotlin-gen.go | 11 ++++++-----
 format/jpa/kotlin.go     | 14 ++++++++++++++
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 7f78240..f9f1809 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -138,7 +138,8 @@ func (c *KtGenerator) GenerateEntityClass(
 ) error {
 	// custom functions
 	funcMap := template.FuncMap{
-		"join": strings.Join,
+		"join":  strings.Join,
+		"ident": kotlinIdentifier,
 		"fieldAnnotations": func(field *KotlinField) []string {
 			return c.getFieldAnnotations(class, field)
 		},
@@ -175,12 +176,12 @@ data class {{.Class.Name}}(
     {{end}}
     {{- if .Column.NotNull}}
 		{{- if eq . $.IdEntityField}}
-        override var {{.Name}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}}{{if hasNext . $.Class.Fields}},{{end}}
+        override var {{ident .Name}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}}{{if hasNext . $.Class.Fields}},{{end}}
 		{{- else}}
-        var {{.Name}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}}{{if hasNext . $.Class.Fields}},{{end}}
+        var {{ident .Name}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}}{{if hasNext . $.Class.Fields}},{{end}}
 		{{- end}}
     {{- else}}
-        {{if eq . $.IdEntityField}}override {{end}}var {{.Name}}: {{.Type}}{{if hasNext . $.Class.Fields}},{{end}}
+        {{if eq . $.IdEntityField}}override {{end}}var {{ident .Name}}: {{.Type}}{{if hasNext . $.Class.Fields}},{{end}}
     {{- end}}
 {{end}}
 {{- if eq .SuperClass ""}}
@@ -192,7 +193,7 @@ data class {{.Class.Name}}(
 {{- if ne .IdClassName ""}}
 data class {{.IdClassName}}(
 {{- range .Class.PKFields}}
-        var {{.Name}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}}{{if hasNext . $.Class.PKFields}},{{end}}
+        var {{ident .Name}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{end}}{{if hasNext . $.Class.PKFields}},{{end}}
 {{- end}}
 ): Serializable
 {{- end}}
diff --git a/format/jpa/kotlin.go b/format/jpa/kotlin.go
index b44ddb7..ba38344 100644
--- a/format/jpa/kotlin.go
+++ b/format/jpa/kotlin.go
@@ -10,6 +10,20 @@ import (
 
 var plainSnakeCase = regexp.MustCompile(`^[a-z]+(_[a-z]{2,})*$`)
 
+var kotlinHardKeywords = util.NewStringSet(
+	"as", "break", "class", "continue", "do", "else", "false", "for", "fun", "if", "in", "interface", "is", "null",
+	"object", "package", "return", "super", "this", "throw", "true", "try", "typealias", "typeof", "val", "var",
+	"when", "while",
+)
+
+// kotlinIdentifier quotes a name that is not an identifier.
+func kotlinIdentifier(name string) string {
+	if kotlinHardKeywords.Contains(name) || (name != "" && name[0] >= '0' && name[0] <= '9') {
+		return "`" + name + "`"
+	}
+	return name
+}
+
 type KotlinClass struct {
 	table        *octopus.Table
 	Name         string
-- 
2.43.0


From 522ff9828e9c617e4a5d8e1020a15899a466585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:11 +0000
Subject: [PATCH 41/77] fix: prefix and annotation options with a comma inside
 an entry panicked

---
 format/common/annotation.go | 14 +++++++++++++-
 format/common/prefix.go     |  3 +++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/format/common/annotation.go b/format/common/annotation.go
index bb5d0e3..7ab3bac 100644
--- a/format/common/annotation.go
+++ b/format/common/annotation.go
@@ -13,8 +13,20 @@ func NewAnnotationMapper(annotation string) *AnnotationMapper {
 
 	// populate annoMap
 	if strings.Contains(annotation, ":") {
+		var entries []string
 		for _, annoToken := range strings.Split(annotation, ",") {
-			kv := strings.SplitN(annoToken, ":", 2)
+			if n := len(entries); n > 0 && !strings.Contains(annoToken, ":") {
+				// a comma inside an annotation
+				entries[n-1] += "," + annoToken
+			} else {
+				entries = append(entries, annoToken)
+			}
+		}
+		for _, entry := range entries {
+			kv := strings.SplitN(entry, ":", 2)
+			if len(kv) < 2 {
+				continue
+			}
 			group := kv[0]
 			annotations := strings.Split(kv[1], ";")
 			annoMap[group] = annotations
diff --git a/format/common/prefix.go b/format/common/prefix.go
index ffa9990..4122303 100644
--- a/format/common/prefix.go
+++ b/format/common/prefix.go
@@ -15,6 +15,9 @@ func NewPrefixMapper(prefix string) *PrefixMapper {
 	if strings.Contains(prefix, ":") {
 		for _, prefixToken := range strings.Split(prefix, ",") {
 			kv := strings.SplitN(prefixToken, ":", 2)
+			if len(kv) < 2 {
+				continue
+			}
 			group := kv[0]
 			prefixValue := kv[1]
 			prefixMap[group] = prefixValue
-- 
2.43.0


From 5247270907aeef59326041397e7d6882cfa7c8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:43 +0000
Subject: [PATCH 42/77] fix: kotlin repositories did not import the type of the
 id

---
 format/jpa/kotlin-gen.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index f9f1809..2b23e7e 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -387,6 +387,9 @@ package {{.ReposPackage}}
 {{end -}}
 import org.springframework.data.jpa.repository.JpaRepository
 import org.springframework.stereotype.Repository
+{{- range .IdImports}}
+import {{.}}
+{{- end}}
 
 @Repository
 interface {{.ClassName}}Repository : JpaRepository<{{.ClassName}}, {{.IdClassName}}>
@@ -399,11 +402,13 @@ interface {{.ClassName}}Repository : JpaRepository<{{.ClassName}}, {{.IdClassNam
 	}
 
 	var idClassName string
+	var idImports []string
 	pkFieldCount := len(class.PKFields)
 	if pkFieldCount > 1 {
 		idClassName = class.Name + "PK"
 	} else {
 		idClassName = class.PKFields[0].Type
+		idImports = class.PKFields[0].Imports
 	}
 
 	data := struct {
@@ -411,11 +416,13 @@ interface {{.ClassName}}Repository : JpaRepository<{{.ClassName}}, {{.IdClassNam
 		ReposPackage  string
 		ClassName     string
 		IdClassName   string
+		IdImports     []string
 	}{
 		EntityPackage: entityPackageName,
 		ReposPackage:  reposPackageName,
 		ClassName:     class.Name,
 		IdClassName:   idClassName,
+		IdImports:     idImports,
 	}
 	return tmpl.Execute(wr, &data)
 }
-- 
2.43.0


From 233feb84a1f6218067401f13b319f74ce508b3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:30 +0000
Subject: [PATCH 43/77] fix: sqlalchemy files after the first did not import
 Column

---
 format/sqlalchemy/generator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index 109da63..4a00b89 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -192,6 +192,7 @@ func (c *Generator) Generate(outputPath string) error {
 			// reset slice
 			contents = make([]string, 0)
 			saImportSet.Clear()
+			saImportSet.Add("Column")
 			importSet.Clear()
 		}
 	}
-- 
2.43.0


From 44fbd8620feb10cbfdad03a97ff02d9325e18540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:31 +0000
Subject: [PATCH 44/77] fix: sqlalchemy output of one file per table used
 TZDateTime without defining it

---
 format/sqlalchemy/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index 4a00b89..2df3851 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -181,6 +181,9 @@ func (c *Generator) Generate(outputPath string) error {
 			contents = append(contents, classLines...)
 		} else {
 			contents = append(contents, c.getHeaderLines(importSet.Slice(), saImportSet.Slice())...)
+			if useTZDateTime {
+				contents = append(contents, c.getTZDateTimeLines()...)
+			}
 			contents = append(contents, classLines...)
 			contents = append(contents, "")
 
@@ -194,6 +197,7 @@ func (c *Generator) Generate(outputPath string) error {
 			saImportSet.Clear()
 			saImportSet.Add("Column")
 			importSet.Clear()
+			useTZDateTime = false
 		}
 	}
 
-- 
2.43.0


From 1b748c919769d7048a1036390b5872061147fd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:33 +0000
Subject: [PATCH 45/77] fix: sqlalchemy columns of other types had an empty
 argument, which is a syntax error

---
 format/sqlalchemy/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index 2df3851..d3cab9b 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -149,7 +149,7 @@ func (c *Generator) Generate(outputPath string) error {
 					}
 				}
 				importSet.Add("from datetime import datetime")
-			} else {
+			} else if field.Type != "" {
 				attributes = append(attributes, field.Type)
 			}
 			// PK
-- 
2.43.0


From fdd2564a68f60d1656607f9c4ed5f8ef5f8c4d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:34 +0000
Subject: [PATCH 46/77] fix: sqlalchemy Float columns were given a scale, which
 Float does not accept

---
 format/sqlalchemy/generator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index d3cab9b..10a41f3 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -120,7 +120,8 @@ func (c *Generator) Generate(outputPath string) error {
 				if column.Size > 0 {
 					colAttrs = append(colAttrs, fmt.Sprintf("precision=%d", column.Size))
 				}
-				if column.Scale > 0 {
+				// Float takes no scale
+				if column.Scale > 0 && lcColumnType == octopus.ColTypeDecimal {
 					colAttrs = append(colAttrs, fmt.Sprintf("scale=%d", column.Scale))
 				}
 
-- 
2.43.0


From 9a5d67ee5535a0ce543fba324fc0150f681f7421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:36 +0000
Subject: [PATCH 47/77] fix: sqlalchemy unique constraints named attributes
 instead of columns

---
 format/sqlalchemy/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index 10a41f3..008785f 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -86,7 +86,7 @@ func (c *Generator) Generate(outputPath string) error {
 		uniqueCstName := table.Name + uniqueNameSuffix
 		var uniqueFieldNames []string
 		for _, field := range class.UniqueFields {
-			uniqueFieldNames = append(uniqueFieldNames, util.Quote(field.Name, "'"))
+			uniqueFieldNames = append(uniqueFieldNames, util.Quote(field.Column.Name, "'"))
 		}
 
 		// class
-- 
2.43.0


From 9dfabe07e246e3205ebbc1dbe587adadae6ad243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:38 +0000
Subject: [PATCH 48/77] fix: sqlalchemy unique constraint over several columns
 was not part of the table and each column was unique alone

---
 format/sqlalchemy/generator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index 008785f..9bd7882 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -96,7 +96,7 @@ func (c *Generator) Generate(outputPath string) error {
 		)
 
 		if len(uniqueFieldNames) > 1 {
-			appendLine(indent + fmt.Sprintf("UniqueConstraint(%s, name='%s')", strings.Join(uniqueFieldNames, ", "), uniqueCstName))
+			appendLine(indent + fmt.Sprintf("__table_args__ = (UniqueConstraint(%s, name='%s'),)", strings.Join(uniqueFieldNames, ", "), uniqueCstName))
 			saImportSet.Add("UniqueConstraint")
 		}
 		appendLine("")
@@ -158,7 +158,7 @@ func (c *Generator) Generate(outputPath string) error {
 				attributes = append(attributes, "primary_key=True")
 			}
 			// Unique
-			if column.UniqueKey {
+			if column.UniqueKey && len(uniqueFieldNames) == 1 {
 				attributes = append(attributes, "unique=True")
 			}
 			// auto_increment
-- 
2.43.0


From 93179f958ff431ab698082a452351c7edfebf581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:39 +0000
Subject: [PATCH 49/77] fix: sqlalchemy --useUTC needed a value, it is
 documented as a flag

---
 format/sqlalchemy/cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/sqlalchemy/cli.go b/format/sqlalchemy/cli.go
index db5ddac..793c188 100644
--- a/format/sqlalchemy/cli.go
+++ b/format/sqlalchemy/cli.go
@@ -75,7 +75,7 @@ var CliFlags = []cli.Flag{
 		Usage:   "set unique constraint name suffix",
 		EnvVars: []string{"OCTOPUS_UNIQUE_NAME_SUFFIX"},
 	},
-	&cli.StringFlag{
+	&cli.BoolFlag{
 		Name:    FlagUseUTC,
 		Aliases: []string{"t"},
 		Usage:   "use UTC for audit column default value",
-- 
2.43.0


From 72c012522c6866f72dd76ad957abad5b6573eb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:41 +0000
Subject: [PATCH 50/77] fix: async and await are reserved words of python

---
 util/python.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/python.go b/util/python.go
index d3e50b1..6aab77c 100644
--- a/util/python.go
+++ b/util/python.go
@@ -4,6 +4,8 @@ var pythonReservedWords = [...]string{
 	"and",
 	"as",
 	"assert",
+	"async",
+	"await",
 	"break",
 	"class",
 	"continue",
-- 
2.43.0


From 485266bcb57978b0a8104ec607e7e6b95a1995f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:43 +0000
Subject: [PATCH 51/77] fix: sqlalchemy attributes named metadata and datetime
 broke the class

---
 format/sqlalchemy/sqlalchemy.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/sqlalchemy/sqlalchemy.go b/format/sqlalchemy/sqlalchemy.go
index 17f7e4a..ef9049b 100644
--- a/format/sqlalchemy/sqlalchemy.go
+++ b/format/sqlalchemy/sqlalchemy.go
@@ -132,6 +132,10 @@ func NewSaField(column *octopus.Column) *SaField {
 
 	// check python reserved words
 	reservedWord := util.IsPythonReservedWord(fieldName)
+	// 'metadata' is reserved by declarative classes, 'datetime' hides the import
+	if fieldName == "metadata" || fieldName == "datetime" {
+		reservedWord = true
+	}
 	if reservedWord {
 		fieldName = fieldName + "_"
 	}
-- 
2.43.0


From fd523a65e25c2a6a5f35728b8980473523e15bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:44 +0000
Subject: [PATCH 52/77] fix: sqlalchemy attributes of columns that start with a
 digit were not identifiers

---
 format/sqlalchemy/sqlalchemy.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/format/sqlalchemy/sqlalchemy.go b/format/sqlalchemy/sqlalchemy.go
index ef9049b..cfef8d2 100644
--- a/format/sqlalchemy/sqlalchemy.go
+++ b/format/sqlalchemy/sqlalchemy.go
@@ -140,6 +140,12 @@ func NewSaField(column *octopus.Column) *SaField {
 		fieldName = fieldName + "_"
 	}
 
+	// number prefix
+	if fieldName != "" && fieldName[0] >= '0' && fieldName[0] <= '9' {
+		fieldName = "_" + fieldName
+		ok = false
+	}
+
 	return &SaField{
 		Column:       column,
 		Name:         fieldName,
-- 
2.43.0


From 895b09fbbbbd86d28776ac2622d7191269867f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:11 +0000
Subject: [PATCH 53/77] fix: protobuf options relationTagStart and
 relationTagDecr had no effect

---
 format/protobuf/cli.go       | 7 ++++---
 format/protobuf/generator.go | 6 +++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/format/protobuf/cli.go b/format/protobuf/cli.go
index a5c0da8..0e3efa7 100644
--- a/format/protobuf/cli.go
+++ b/format/protobuf/cli.go
@@ -36,8 +36,8 @@ func Action(c *cli.Context) error {
 			Package:          c.String(FlagPackage),
 			GoPackage:        c.String(FlagGoPackage),
 			FilePath:         c.String(FlagOutput),
-			RelationTagStart: -1,
-			RelationTagDecr:  false,
+			RelationTagStart: c.Int(FlogRelationTagStart),
+			RelationTagDecr:  c.Bool(FlogRelationTagDecr),
 		},
 	)
 	buf := new(bytes.Buffer)
@@ -98,8 +98,9 @@ var CliFlags = []cli.Flag{
 		Usage:   "set relation tags decremental from `relationTagStart`",
 		EnvVars: []string{"OCTOPUS_RELATION_TAG_DECR"},
 	},
-	&cli.StringFlag{
+	&cli.IntFlag{
 		Name:    FlogRelationTagStart,
+		Value:   -1,
 		Aliases: []string{"s"},
 		Usage:   "set relation tags start index. set -1 to start from last of fields.",
 		EnvVars: []string{"OCTOPUS_RELATION_TAG_START"},
diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index 52fb0ac..ad4cc41 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -218,7 +218,11 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 
 	// update tag of relations
 	for i, relation := range relations {
-		relation.Tag = relTagStart + i
+		if relTagDecr {
+			relation.Tag = relTagStart - i
+		} else {
+			relation.Tag = relTagStart + i
+		}
 	}
 
 	return &PbMessage{
-- 
2.43.0


From c6334f11c57ab07b45115e18fbb1f5626ace4ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:12 +0000
Subject: [PATCH 54/77] fix: protobuf relations to many were not repeated

---
 format/protobuf/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index ad4cc41..ec061d8 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -116,7 +116,7 @@ message {{.Name}} {
   {{.Type}} {{.Name}} = {{.Tag}};
   {{- end}}
   {{- range .Relations}}
-  {{.Type}} {{.Name}} = {{.Tag}};
+  {{if .Repeated}}repeated {{end}}{{.Type}} {{.Name}} = {{.Tag}};
   {{- end}}
 }
 {{end}}`
-- 
2.43.0


From 0f0ea2bd4edf0a3995cfd09193e5a72d6210db5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:14 +0000
Subject: [PATCH 55/77] fix: protobuf relations to unknown tables panicked and
 those to tables of other groups named no message

---
 format/protobuf/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index ec061d8..7783b1a 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -188,6 +188,10 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 		// reference
 		if ref := column.Ref; ref != nil {
 			refTable := t.schema.TableByName(ref.Table)
+			// skip messages that are not generated
+			if refTable == nil || (t.option.TableFilter != nil && !t.option.TableFilter(refTable)) {
+				continue
+			}
 			refMessageType := t.messageNameMemoizer(refTable)
 			refName := strcase.ToLowerCamel(refMessageType)
 			repeated := ref.Relationship == octopus.RefOneToMany
-- 
2.43.0


From 64cbd1802cfc6fb12a70bdf900fcdac97cda3076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:15 +0000
Subject: [PATCH 56/77] fix: protobuf fields of other column types named types
 that do not exist

---
 format/protobuf/generator.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index 7783b1a..3c6e77c 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -276,8 +276,17 @@ func newPbField(tag int, column *octopus.Column) *PbField {
 	case octopus.ColTypeDateTime:
 		fieldType = "google.protobuf.Timestamp"
 		imp = "google/protobuf/timestamp.proto"
+	case octopus.ColTypeBlob8:
+		fallthrough
+	case octopus.ColTypeBlob16:
+		fallthrough
+	case octopus.ColTypeBlob24:
+		fallthrough
+	case octopus.ColTypeBlob32:
+		fieldType = "bytes"
 	default:
-		fieldType = column.Type
+		// the name of the column type is no type of protobuf
+		fieldType = "string"
 		log.Printf("unsupported columnType: %s", columnType)
 	}
 
-- 
2.43.0


From e4e42466fabedae4e21e080250c17b9dc1c1d875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:17 +0000
Subject: [PATCH 57/77] fix: protobuf relations to the same message had the
 same field name

---
 format/protobuf/generator.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index 3c6e77c..c839bc2 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -175,6 +175,11 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 	imports := util.NewStringSet()
 	var fields []*PbField
 	var relations []*PbRelation
+	fieldNames := util.NewStringSet()
+	for _, column := range table.Columns {
+		fieldName, _ := util.ToLowerCamel(column.Name)
+		fieldNames.Add(fieldName)
+	}
 	maxTag := 0
 	for i, column := range table.Columns {
 		tag := i + 1
@@ -194,6 +199,11 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 			}
 			refMessageType := t.messageNameMemoizer(refTable)
 			refName := strcase.ToLowerCamel(refMessageType)
+			// several relations to a message and columns of that name
+			if fieldNames.Contains(refName) {
+				refName += strcase.ToCamel(column.Name)
+			}
+			fieldNames.Add(refName)
 			repeated := ref.Relationship == octopus.RefOneToMany
 
 			relations = append(relations, &PbRelation{
-- 
2.43.0


From d13be597dd2600b174ced89ef273c6313b29b18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:23 +0000
Subject: [PATCH 58/77] fix: gorm references to the same struct had the same
 field name

---
 format/gorm/gorm.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/format/gorm/gorm.go b/format/gorm/gorm.go
index f0f2a0f..83d4002 100644
--- a/format/gorm/gorm.go
+++ b/format/gorm/gorm.go
@@ -38,6 +38,10 @@ func NewGoStruct(
 	var pkFields []*GoField
 	var uniqueFields []*GoField
 	var associationFields []*GoAssocationField
+	fieldNames := util.NewStringSet()
+	for _, column := range table.Columns {
+		fieldNames.Add(NewGoField(column).Name)
+	}
 	for _, column := range table.Columns {
 		field := NewGoField(column)
 		fields = append(fields, field)
@@ -54,8 +58,14 @@ func NewGoStruct(
 			refTable, refColumn := p.Reference(*ref)
 			if refTable != nil && refColumn != nil {
 				refType := p.StructName(refTable)
+				// several references to a struct and columns of that name
+				refName := refType
+				if fieldNames.Contains(refName) {
+					refName += field.Name
+				}
+				fieldNames.Add(refName)
 				associationFields = append(associationFields, &GoAssocationField{
-					Name:       refType,
+					Name:       refName,
 					Type:       refType,
 					Array:      ref.Relationship == octopus.RefOneToMany,
 					ForeignKey: field.Name,
-- 
2.43.0


From 280c8bf60151c1b57910b07ae1aef79a1b9e817b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:24 +0000
Subject: [PATCH 59/77] fix: gorm fields of columns named table_name clashed
 with the method TableName

---
 format/gorm/gorm.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/format/gorm/gorm.go b/format/gorm/gorm.go
index 83d4002..0afc3fd 100644
--- a/format/gorm/gorm.go
+++ b/format/gorm/gorm.go
@@ -225,6 +225,12 @@ func NewGoField(column *octopus.Column) *GoField {
 		overrideName = true
 	}
 
+	// name of the method
+	if fieldName == "TableName" {
+		fieldName = "TableName_"
+		overrideName = true
+	}
+
 	return &GoField{
 		Column:       column,
 		Name:         fieldName,
-- 
2.43.0


From c58da53517dd258cb4a1b367750761daffd418c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:42 +0000
Subject: [PATCH 60/77] fix: graphql fields of columns that start with a digit
 had invalid names

---
 format/graphql/generator.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/format/graphql/generator.go b/format/graphql/generator.go
index b286b34..2ed47fa 100644
--- a/format/graphql/generator.go
+++ b/format/graphql/generator.go
@@ -118,9 +118,15 @@ func NewField(column *octopus.Column) *Field {
 		fieldType = fieldType + "!"
 	}
 
+	fieldName := strcase.ToLowerCamel(column.Name)
+	// names must not start with a digit
+	if fieldName != "" && fieldName[0] >= '0' && fieldName[0] <= '9' {
+		fieldName = "_" + fieldName
+	}
+
 	return &Field{
 		Column: column,
-		Name:   strcase.ToLowerCamel(column.Name),
+		Name:   fieldName,
 		Type:   fieldType,
 	}
 }
-- 
2.43.0


From 3731036b34d90689c527e4b9d99369a3dda39735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:43 +0000
Subject: [PATCH 61/77] fix: graphql queries of tables with the same plural had
 the same name

---
 format/graphql/generator.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/format/graphql/generator.go b/format/graphql/generator.go
index 2ed47fa..18f056d 100644
--- a/format/graphql/generator.go
+++ b/format/graphql/generator.go
@@ -6,6 +6,7 @@ import (
 	"github.com/iancoleman/strcase"
 	"github.com/lechuckroh/octopus-db-tools/format/common"
 	"github.com/lechuckroh/octopus-db-tools/format/octopus"
+	"github.com/lechuckroh/octopus-db-tools/util"
 	"io/ioutil"
 	"log"
 	"os"
@@ -156,6 +157,7 @@ func (c *Generator) Generate(outputPath string) error {
 	var classes []*Class
 
 	client := pluralize.NewClient()
+	queryNames := util.NewStringSet()
 
 	appendLine(0, "type Query {")
 	for _, table := range c.schema.Tables {
@@ -167,8 +169,12 @@ func (c *Generator) Generate(outputPath string) error {
 		class := NewClass(table, c.option)
 		classes = append(classes, class)
 
-		lowerClassName := strcase.ToLowerCamel(class.Name)
-		appendLine(1, fmt.Sprintf("%s: [%s]", client.Plural(lowerClassName), class.Name))
+		queryName := client.Plural(strcase.ToLowerCamel(class.Name))
+		for queryNames.Contains(queryName) {
+			queryName += "List"
+		}
+		queryNames.Add(queryName)
+		appendLine(1, fmt.Sprintf("%s: [%s]", queryName, class.Name))
 	}
 	appendLine(0, "}")
 	appendLine(0, "")
-- 
2.43.0


From 6c607cae528e2439caaeecf7d283392f462eb53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:39 +0000
Subject: [PATCH 62/77] fix: the groups option of the dbml export had no effect

---
 format/dbml/exporter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/dbml/exporter.go b/format/dbml/exporter.go
index 454524a..5305f17 100644
--- a/format/dbml/exporter.go
+++ b/format/dbml/exporter.go
@@ -33,6 +33,10 @@ func (c *Exporter) exportToString() ([]byte, error) {
 	definedTables := make(map[string]bool)
 
 	for _, table := range c.schema.Tables {
+		if filter := c.option.TableFilter; filter != nil && !filter(table) {
+			continue
+		}
+
 		result = append(result, fmt.Sprintf("Table %s {", table.Name))
 
 		for _, column := range table.Columns {
-- 
2.43.0


From 12858f3d80c0a1b45b717d8f7d0c3a1e993a0ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:40 +0000
Subject: [PATCH 63/77] fix: dbml had references to tables that are not
 exported

---
 format/dbml/exporter.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/format/dbml/exporter.go b/format/dbml/exporter.go
index 5305f17..047ab0b 100644
--- a/format/dbml/exporter.go
+++ b/format/dbml/exporter.go
@@ -31,9 +31,16 @@ func (c *Exporter) exportToString() ([]byte, error) {
 	var result []string
 	var deferredRefs []string
 	definedTables := make(map[string]bool)
+	exportedTables := make(map[string]bool)
 
 	for _, table := range c.schema.Tables {
-		if filter := c.option.TableFilter; filter != nil && !filter(table) {
+		if filter := c.option.TableFilter; filter == nil || filter(table) {
+			exportedTables[table.Name] = true
+		}
+	}
+
+	for _, table := range c.schema.Tables {
+		if !exportedTables[table.Name] {
 			continue
 		}
 
@@ -61,7 +68,7 @@ func (c *Exporter) exportToString() ([]byte, error) {
 				}
 				params = append(params, fmt.Sprintf("default: %s", defaultValue))
 			}
-			if ref := column.Ref; ref != nil {
+			if ref := column.Ref; ref != nil && exportedTables[ref.Table] {
 				rel := getRelationshipType(ref)
 
 				if definedTables[ref.Table] {
-- 
2.43.0


From f9b21bdc758920a34ea9702132d971e20a280478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:42 +0000
Subject: [PATCH 64/77] fix: quotes, backslashes and line breaks in dbml notes
 and defaults were not escaped

---
 format/dbml/exporter.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/format/dbml/exporter.go b/format/dbml/exporter.go
index 047ab0b..109dce9 100644
--- a/format/dbml/exporter.go
+++ b/format/dbml/exporter.go
@@ -17,6 +17,16 @@ type Exporter struct {
 	option *Option
 }
 
+// stringEscaper escapes the content of a quoted DBML string.
+var stringEscaper = strings.NewReplacer(
+	"\\", "\\\\",
+	"'", "\\'",
+	"\"", "\\\"",
+	"\n", "\\n",
+	"\r", "\\r",
+	"\t", "\\t",
+)
+
 func (c *Exporter) Export(wr io.Writer) error {
 	// TODO: replace with template
 	if bytes, err := c.exportToString(); err != nil {
@@ -64,7 +74,7 @@ func (c *Exporter) exportToString() ([]byte, error) {
 			if column.DefaultValue != "" {
 				defaultValue := column.DefaultValue
 				if util.IsStringType(column.Type) {
-					defaultValue = fmt.Sprintf("'%s'", defaultValue)
+					defaultValue = fmt.Sprintf("'%s'", stringEscaper.Replace(defaultValue))
 				}
 				params = append(params, fmt.Sprintf("default: %s", defaultValue))
 			}
@@ -82,7 +92,7 @@ func (c *Exporter) exportToString() ([]byte, error) {
 				}
 			}
 			if column.Description != "" {
-				params = append(params, fmt.Sprintf("note: \"%s\"", column.Description))
+				params = append(params, fmt.Sprintf("note: \"%s\"", stringEscaper.Replace(column.Description)))
 			}
 
 			columnType := column.Type
-- 
2.43.0


From 0ac4f3e3fe26d35c4fa486623ee58404f21caab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:43 +0000
Subject: [PATCH 65/77] fix: dbml defaults of function, date, enum and text
 columns were not valid

---
 format/dbml/exporter.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/format/dbml/exporter.go b/format/dbml/exporter.go
index 109dce9..b49804b 100644
--- a/format/dbml/exporter.go
+++ b/format/dbml/exporter.go
@@ -5,6 +5,7 @@ import (
 	"github.com/lechuckroh/octopus-db-tools/format/octopus"
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"io"
+	"regexp"
 	"strings"
 )
 
@@ -17,6 +18,9 @@ type Exporter struct {
 	option *Option
 }
 
+// literalPattern matches default values that are written without quotes.
+var literalPattern = regexp.MustCompile(`^(-?[0-9]+(\.[0-9]+)?|true|false|null)$`)
+
 // stringEscaper escapes the content of a quoted DBML string.
 var stringEscaper = strings.NewReplacer(
 	"\\", "\\\\",
@@ -72,8 +76,10 @@ func (c *Exporter) exportToString() ([]byte, error) {
 				params = append(params, "not null")
 			}
 			if column.DefaultValue != "" {
-				defaultValue := column.DefaultValue
-				if util.IsStringType(column.Type) {
+				defaultValue, fn := column.GetDefaultValue()
+				if fn {
+					defaultValue = fmt.Sprintf("`%s`", defaultValue)
+				} else if util.IsStringType(column.Type) || !literalPattern.MatchString(defaultValue) {
 					defaultValue = fmt.Sprintf("'%s'", stringEscaper.Replace(defaultValue))
 				}
 				params = append(params, fmt.Sprintf("default: %s", defaultValue))
-- 
2.43.0


From 9e825f87a1b0b717c8f51491410bba6a8a420f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:36 +0000
Subject: [PATCH 66/77] fix: quickdbd defaults showed the internal prefix of
 functions

---
 format/quickdbd/exporter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/quickdbd/exporter.go b/format/quickdbd/exporter.go
index 213e9b1..4a6281b 100644
--- a/format/quickdbd/exporter.go
+++ b/format/quickdbd/exporter.go
@@ -55,8 +55,8 @@ func getColumnDef(col *octopus.Column) string {
 	if !col.NotNull {
 		params = append(params, "NULLABLE")
 	}
-	if col.DefaultValue != "" {
-		params = append(params, fmt.Sprintf("default=%s", col.DefaultValue))
+	if value, _ := col.GetDefaultValue(); value != "" {
+		params = append(params, fmt.Sprintf("default=%s", value))
 	}
 	if ref := col.Ref; ref != nil {
 		rel := getRelationshipType(ref)
-- 
2.43.0


From 1cbcba95986d8ac169c520a488cfe7d5bbf386da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:38 +0000
Subject: [PATCH 67/77] fix: line breaks in descriptions broke quickdbd
 definitions

---
 format/quickdbd/exporter.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/format/quickdbd/exporter.go b/format/quickdbd/exporter.go
index 4a6281b..56a780f 100644
--- a/format/quickdbd/exporter.go
+++ b/format/quickdbd/exporter.go
@@ -31,9 +31,14 @@ func (c *Exporter) Export(wr io.Writer) error {
 	return err
 }
 
+// toSingleLine replaces line breaks, which end a definition in QuickDBD.
+func toSingleLine(s string) string {
+	return strings.NewReplacer("\r\n", " ", "\n", " ", "\r", " ").Replace(s)
+}
+
 func getTableDef(table *octopus.Table) string {
 	if table.Description != "" {
-		return fmt.Sprintf("%s # %s", table.Name, table.Description)
+		return fmt.Sprintf("%s # %s", table.Name, toSingleLine(table.Description))
 	} else {
 		return table.Name
 	}
@@ -56,14 +61,14 @@ func getColumnDef(col *octopus.Column) string {
 		params = append(params, "NULLABLE")
 	}
 	if value, _ := col.GetDefaultValue(); value != "" {
-		params = append(params, fmt.Sprintf("default=%s", value))
+		params = append(params, fmt.Sprintf("default=%s", toSingleLine(value)))
 	}
 	if ref := col.Ref; ref != nil {
 		rel := getRelationshipType(ref)
 		params = append(params, fmt.Sprintf("FK %s %s.%s", rel, ref.Table, ref.Column))
 	}
 	if col.Description != "" {
-		params = append(params, fmt.Sprintf("# %s", col.Description))
+		params = append(params, fmt.Sprintf("# %s", toSingleLine(col.Description)))
 	}
 
 	return fmt.Sprintf("%s %s", col.Name, strings.Join(params, " "))
-- 
2.43.0


From 1ff1cc0b3757fd02438cefb2637d7d7c592552f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:21 +0000
Subject: [PATCH 68/77] fix: init without output failed instead of creating the
 documented db.json

---
 format/octopus/cli.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/octopus/cli.go b/format/octopus/cli.go
index 961cf49..7d8b6ad 100644
--- a/format/octopus/cli.go
+++ b/format/octopus/cli.go
@@ -71,6 +71,7 @@ var InitCliFlags = []cli.Flag{
 		Aliases:     []string{"o"},
 		Usage:       "init octopus schema to `FILE`",
 		EnvVars:     []string{"OCTOPUS_OUTPUT"},
+		Value:       "db.json",
 		DefaultText: "db.json",
 	},
 }
-- 
2.43.0


From e46ce03293d9dc00d3a5d387a4adead199f22d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:25 +0000
Subject: [PATCH 69/77] fix: octopus files with null tables, columns or indices
 panicked

---
 format/octopus/table.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/format/octopus/table.go b/format/octopus/table.go
index d2213f2..862b668 100644
--- a/format/octopus/table.go
+++ b/format/octopus/table.go
@@ -174,7 +174,30 @@ func (s *Schema) FromFile(filename string) error {
 }
 
 func (s *Schema) FromJson(data []byte) error {
-	return json.Unmarshal(data, s)
+	if err := json.Unmarshal(data, s); err != nil {
+		return err
+	}
+	return s.checkNull()
+}
+
+// checkNull returns an error if there are null tables, columns or indices.
+func (s *Schema) checkNull() error {
+	for i, table := range s.Tables {
+		if table == nil {
+			return fmt.Errorf("tables[%d] is null", i)
+		}
+		for j, column := range table.Columns {
+			if column == nil {
+				return fmt.Errorf("table: '%s': columns[%d] is null", table.Name, j)
+			}
+		}
+		for j, index := range table.Indices {
+			if index == nil {
+				return fmt.Errorf("table: '%s': indices[%d] is null", table.Name, j)
+			}
+		}
+	}
+	return nil
 }
 
 // Normalize converts colume types to lowercase
-- 
2.43.0


From 99a86d8c02b8693acf6991ab126c67fd1d9afd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:27 +0000
Subject: [PATCH 70/77] fix: ojson files with null tables or columns panicked

---
 format/ojson/table.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/format/ojson/table.go b/format/ojson/table.go
index af3bba3..36e6e59 100644
--- a/format/ojson/table.go
+++ b/format/ojson/table.go
@@ -2,6 +2,7 @@ package ojson
 
 import (
 	"encoding/json"
+	"fmt"
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"io/ioutil"
 	"log"
@@ -132,7 +133,20 @@ func (s *Schema) FromFile(filename string) error {
 }
 
 func (s *Schema) FromJson(data []byte) error {
-	return json.Unmarshal(data, s)
+	if err := json.Unmarshal(data, s); err != nil {
+		return err
+	}
+	for i, table := range s.Tables {
+		if table == nil {
+			return fmt.Errorf("tables[%d] is null", i)
+		}
+		for j, column := range table.Columns {
+			if column == nil {
+				return fmt.Errorf("table: '%s': columns[%d] is null", table.Name, j)
+			}
+		}
+	}
+	return nil
 }
 
 // Normalize converts colume types to lowercase
-- 
2.43.0


From b18da58c61c5ad02b00bd85c430689adac636737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:28 +0000
Subject: [PATCH 71/77] fix: ojson columns without a name panicked

---
 format/ojson/importer.go | 4 +++-
 format/ojson/table.go    | 9 ++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/format/ojson/importer.go b/format/ojson/importer.go
index c89aeae..b115eaa 100644
--- a/format/ojson/importer.go
+++ b/format/ojson/importer.go
@@ -34,7 +34,9 @@ func (c *Importer) ImportJSON(data []byte) (*octopus.Schema, error) {
 	if err := schema1.FromJson(data); err != nil {
 		return nil, err
 	}
-	schema1.Normalize()
+	if err := schema1.Normalize(); err != nil {
+		return nil, err
+	}
 
 	var tables []*octopus.Table
 	for _, table1 := range schema1.Tables {
diff --git a/format/ojson/table.go b/format/ojson/table.go
index 36e6e59..53ddb86 100644
--- a/format/ojson/table.go
+++ b/format/ojson/table.go
@@ -120,7 +120,9 @@ func (s *Schema) ToFile(filename string) error {
 }
 
 func (s *Schema) ToJson() ([]byte, error) {
-	s.Normalize()
+	if err := s.Normalize(); err != nil {
+		return nil, err
+	}
 	return json.MarshalIndent(s, "", "  ")
 }
 
@@ -150,7 +152,7 @@ func (s *Schema) FromJson(data []byte) error {
 }
 
 // Normalize converts colume types to lowercase
-func (s *Schema) Normalize() {
+func (s *Schema) Normalize() error {
 	sort.Sort(TableSlice(s.Tables))
 
 	for _, table := range s.Tables {
@@ -160,7 +162,7 @@ func (s *Schema) Normalize() {
 
 				// validate
 				if err := column.Validate(true); err != nil {
-					log.Panicf("table: %s, %s", table.Name, err.Error())
+					return fmt.Errorf("table: '%s': %w", table.Name, err)
 				}
 			} else {
 				log.Printf("unknown column type: '%s', table: %s, column: %s",
@@ -168,6 +170,7 @@ func (s *Schema) Normalize() {
 			}
 		}
 	}
+	return nil
 }
 
 // normalizeColumnType converts column type to octopus generalized column type
-- 
2.43.0


From 6580a4e5f8d7b4ce2bcf4179b4a171e20cc034c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:30 +0000
Subject: [PATCH 72/77] fix: starUML files with null elements panicked

---
 format/staruml/importer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/format/staruml/importer.go b/format/staruml/importer.go
index 60977a7..a65b184 100644
--- a/format/staruml/importer.go
+++ b/format/staruml/importer.go
@@ -117,7 +117,7 @@ func (c *Importer) findByType(elems []*Element, typ string) []*Element {
 	var result []*Element
 
 	for _, elem := range elems {
-		if elem.ElemType == typ {
+		if elem != nil && elem.ElemType == typ {
 			result = append(result, elem)
 		}
 	}
@@ -126,6 +126,9 @@ func (c *Importer) findByType(elems []*Element, typ string) []*Element {
 }
 
 func (c *Importer) walkElement(elem *Element) {
+	if elem == nil {
+		return
+	}
 	c.mapById[elem.ID] = elem
 
 	c.walkElements(elem.OwnedElements)
-- 
2.43.0


From 6f1490ed107fed1ce01fb630a5d1b7d20757c750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:32 +0000
Subject: [PATCH 73/77] fix: damaged xlsx files panicked

---
 format/xlsx/importer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/format/xlsx/importer.go b/format/xlsx/importer.go
index 6351fa3..1e2f74c 100644
--- a/format/xlsx/importer.go
+++ b/format/xlsx/importer.go
@@ -18,7 +18,7 @@ type Importer struct {
 }
 
 func (c *Importer) Import(filename string) (*octopus.Schema, error) {
-	xlFile, err := xlsx.OpenFile(filename)
+	xlFile, err := openFile(filename)
 	if err != nil {
 		return nil, err
 	}
@@ -36,6 +36,16 @@ func (c *Importer) Import(filename string) (*octopus.Schema, error) {
 	return c.toSchema()
 }
 
+// openFile opens a workbook. xlsx panics on some damaged files.
+func openFile(filename string) (file *xlsx.File, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("'%s' is not a valid xlsx file: %v", filename, r)
+		}
+	}()
+	return xlsx.OpenFile(filename)
+}
+
 func (c *Importer) toSchema() (*octopus.Schema, error) {
 	author := ""
 	name := ""
-- 
2.43.0


From 8f8461c5f814bcf1b5e82f24c30f8f9daab00255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:25 +0000
Subject: [PATCH 74/77] fix: import mysql panicked on indices over expressions

---
 format/mysql/importer.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 39958d2..198291d 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -86,6 +86,10 @@ func (x *TableX) Enter(in ast.Node) (ast.Node, bool) {
 		uniqSet := util.NewStringSet()
 		var indices []*octopus.Index
 		for _, cst := range createTableStmt.Constraints {
+			// functional key parts have no column, such keys cannot be expressed
+			if hasExpressionKey(cst) {
+				continue
+			}
 			switch cst.Tp {
 			case ast.ConstraintPrimaryKey:
 				for _, key := range cst.Keys {
@@ -135,6 +139,15 @@ func (x *TableX) Enter(in ast.Node) (ast.Node, bool) {
 	return in, false
 }
 
+func hasExpressionKey(cst *ast.Constraint) bool {
+	for _, key := range cst.Keys {
+		if key.Column == nil {
+			return true
+		}
+	}
+	return false
+}
+
 func (x *TableX) Leave(in ast.Node) (ast.Node, bool) {
 	return in, true
 }
-- 
2.43.0


From 5fd12030992617d1dfba37690a9fa061df30df57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:36 +0000
Subject: [PATCH 75/77] fix: diff flyway added a composite primary key with its
 columns in alphabetical order

---
 format/diff/mysql.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index 9aa1878..9df9801 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -84,7 +84,12 @@ func (b *MysqlQueryBuilder) toRenameTableSQL(c *RenameTable) ([]string, error) {
 func (b *MysqlQueryBuilder) toUpdatePrimaryKeySQL(c *UpdatePrimaryKey) ([]string, error) {
 	table := c.NewTable
 	tableName := table.Name
-	pkColumnNames := table.PrimaryKeyNameSet().Slice()
+	var pkColumnNames []string
+	for _, column := range table.Columns {
+		if column.PrimaryKey {
+			pkColumnNames = append(pkColumnNames, column.Name)
+		}
+	}
 
 	var result []string
 	if c.OldTable.PrimaryKeyNameSet().Size() > 0 {
-- 
2.43.0


From 2e481254ca9bd7fe2e13d36c1b1adcd6be93b1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:49 +0000
Subject: [PATCH 76/77] fix: import mysql kept bit literals as hexadecimal text

mysqldump writes the default of BIT columns as b'0' or b'1', which became the
default value 0x00 or 0x01 of a boolean column; diff and generate take only 1
and true as true.
---
 format/mysql/importer.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 198291d..3dcb802 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -10,7 +10,7 @@ import (
 	"github.com/pingcap/parser/charset"
 	"github.com/pingcap/parser/mysql"
 	"github.com/pingcap/parser/opcode"
-	_ "github.com/pingcap/parser/test_driver"
+	"github.com/pingcap/parser/test_driver"
 	"io"
 	"io/ioutil"
 	"strings"
@@ -184,7 +184,7 @@ func (x *TableX) column(
 		case ast.ColumnOptionDefaultValue:
 			switch colOption.Expr.(type) {
 			case ast.ValueExpr:
-				column.SetDefaultValue(colOption.Expr.(ast.ValueExpr).GetValue())
+				column.SetDefaultValue(x.literalValue(&column, colOption.Expr.(ast.ValueExpr)))
 			case *ast.FuncCallExpr:
 				column.SetDefaultValueFn(colOption.Expr.(*ast.FuncCallExpr).FnName.String())
 			case *ast.UnaryOperationExpr:
@@ -233,6 +233,23 @@ func (x *TableX) column(
 	return &column
 }
 
+// literalValue returns value of literal. bit literal of bit column is converted to number.
+func (x *TableX) literalValue(column *octopus.Column, expr ast.ValueExpr) interface{} {
+	value := expr.GetValue()
+	if column.Type != octopus.ColTypeBit && column.Type != octopus.ColTypeBoolean {
+		return value
+	}
+	literal, ok := value.(test_driver.BinaryLiteral)
+	if !ok || len(literal) > 8 {
+		return value
+	}
+	var number uint64
+	for _, b := range literal {
+		number = number<<8 | uint64(b)
+	}
+	return number
+}
+
 // signedValue returns literal value with sign.
 // returns false if expression is not a signed literal.
 func (x *TableX) signedValue(expr *ast.UnaryOperationExpr) (string, bool) {
-- 
2.43.0


From 4e03a6723a5bbbd08ddd73c85213bc6bafe2a4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:40 +0000
Subject: [PATCH 77/77] fix: gorm read columns like u_id under another name

GORM takes common initialisms such as UID as one word, so the field UID of the
column u_id stands for the column uid unless the column name is stated.
---
 format/gorm/gorm.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/format/gorm/gorm.go b/format/gorm/gorm.go
index 0afc3fd..cf21c76 100644
--- a/format/gorm/gorm.go
+++ b/format/gorm/gorm.go
@@ -103,6 +103,8 @@ type GoField struct {
 	Imports      []string
 }
 
+var adjacentInitials = regexp.MustCompile(`(^|_)[a-z]_[a-z]`)
+
 func NewGoField(column *octopus.Column) *GoField {
 	var fieldType string
 	importSet := util.NewStringSet()
@@ -225,6 +227,11 @@ func NewGoField(column *octopus.Column) *GoField {
 		overrideName = true
 	}
 
+	// single letters in a row can be read as a common initialism, such as UI of u_id
+	if adjacentInitials.MatchString(column.Name) {
+		overrideName = true
+	}
+
 	// name of the method
 	if fieldName == "TableName" {
 		fieldName = "TableName_"
-- 
2.43.0

