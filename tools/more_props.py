props += [
P("C05", "Excel export followed by import gives the schema back",
  "Exporting a schema to an xlsx workbook and importing that workbook again reproduces every table with its group and class name, every column in order with its type, size, scale, nullability, keys, auto-increment, default and on-update value, every reference with its relationship, every index, and the descriptions. Author, name and version of the schema survive.",
  IC, "every valid schema whose texts stay within what a cell of the sheet can hold, with and without --useNullColumn",
  "one fixed schema is round-tripped in process; no sizes on integers, no 1:n or 1:1 references, no defaults containing separators, no groups beyond one",
  ["format/xlsx/exporter.go", "format/xlsx/importer.go", "format/xlsx/constants.go"],
  [("Exporter sheet layout", "format/xlsx/exporter.go"), ("Importer row reader", "format/xlsx/importer.go")],
  GEN + "round trip through the CLI against a reference projection",
  "generated schemas go through export xlsx and import xlsx"),
P("C06", "Excel import reads every workbook written in the documented layout",
  "Importing a workbook laid out as documented gives exactly the tables, columns, references, attributes and indices its rows state: one group per sheet, the reference prefixes > < and - as n:1, 1:n and 1:1, nullability from the null or not-null column, keys P, U and I, and the documented attributes in any documented spelling. Blank rows and the Meta sheet do not become tables.",
  I, "every workbook in the documented layout, with any number of sheets, tables, blank rows and attribute combinations",
  "the tests only import what the exporter wrote for one schema",
  ["format/xlsx/importer.go", "docs/xlsx.md"],
  [("Importer row reader", "format/xlsx/importer.go")],
  GEN + "workbook generator with the expected schema known by construction",
  "the generator writes the workbook and the schema it means side by side"),
P("C07", "octopus v1 (ojson) import keeps everything the old file says",
  "Importing a v1 file gives a schema with the same author, name, version and tables in which every table keeps its group, description and class name and every column keeps its name, type, size, scale, nullability, keys, auto-increment, default and description, and every reference keeps its target.",
  I, "every valid v1 file",
  "there is no test of the ojson importer",
  ["format/ojson/importer.go", "format/ojson/column.go", "format/ojson/table.go"],
  [("Importer.Import", "format/ojson/importer.go")],
  GEN + "file generator with the expected schema known by construction",
  "generated v1 files imported by the CLI and compared field by field"),
P("C08", "StarUML import reads every ERD entity, column and reference",
  "Importing a StarUML project gives one table for each entity of its ERD data model and, for each of its columns, the name, canonical type, length, keys, nullability, description and the referenced table and column.",
  I, "every StarUML project with ERD data models, whether lengths are stored as text or numbers, with or without references",
  "there is no test of the StarUML importer",
  ["format/staruml/importer.go", "format/staruml/staruml.go"],
  [("Importer.Import", "format/staruml/importer.go")],
  GEN + "project generator with the expected schema known by construction",
  "generated project files imported by the CLI and compared field by field"),
P("C09", "Liquibase change log creates exactly the schema",
  "The Liquibase change log generated for a schema is valid YAML with unique change set ids and, applied to an empty database, creates exactly the selected tables with their columns in order, their types, defaults (functions as computed values), nullability and auto-increment, the primary key, one unique constraint (table name plus the given suffix) over the unique columns, and with --comments the remarks. Indices, references and on-update values are not part of it.",
  IC, "every valid schema, with and without --groups, --comments and --uniqueNameSuffix",
  "there is no test of the Liquibase generator",
  ["format/liquibase/generator.go", "format/liquibase/cli.go"],
  [("Generator.Generate", "format/liquibase/generator.go")],
  GEN + "interpreter of the change log compared with a reference model",
  "the change log is parsed and applied to an empty model database"),
P("C10", "Liquibase diff turns the old schema into the new one",
  "Applying the change log of a diff to a database with the old schema gives the database of the new schema: tables, columns, types, defaults, nullability, auto-increment, primary keys, unique constraints and, with --comments, remarks. Tables and columns that only changed their name are renamed rather than dropped and made again, what did not change is not touched, and with --groups the tables of other groups are left alone. The diff of a schema with itself is empty, every change set id is unique, and the diff is the same on every run. Taking auto-increment off a column is outside (Liquibase cannot express it).",
  ["inputs", "histories", "configurations"], "every pair of valid schemas, in particular a schema and the result of a sequence of edits to it",
  "there is no test of the diff commands",
  ["format/liquibase/diff.go", "format/diff/cli.go"],
  [("diff generator", "format/liquibase/diff.go")],
  GEN + "model database: edit sequences generated, change log applied to the old state must give the new state",
  "random edit sequences on random schemas; an interpreter of the change log is the oracle"),
P("C11", "Markdown diff reports exactly the changes",
  "The markdown diff of two schemas has one section per changed table and in it exactly the changes of that table: created, dropped or renamed; columns added, dropped or renamed; changed type, size or scale, nullability, auto-increment and default value; changed primary key and unique constraint; and with --comments changed descriptions. A table or column that only changed its name is reported as renamed. With --groups the tables of other groups do not appear. The diff of a schema with itself is empty and the diff is the same on every run. Values of enum and set columns, indices, on-update values and references are not compared.",
  ["inputs", "histories", "configurations"], "every pair of valid schemas, in particular a schema and the result of a sequence of edits to it",
  "there is no test of the diff commands",
  ["format/diff/diff.go", "format/diff/changeset.go", "format/diff/markdown.go", "format/diff/cli.go"],
  [("getDiff, diffTable, diffColumn", "format/diff/diff.go"), ("MarkdownChangeSetWriter", "format/diff/markdown.go")],
  GEN + "edit sequences; the report is read back and compared with an independent comparison of the two schemas",
  "random edit sequences, unrelated pairs and permuted copies; every line of the report is accounted for"),
P("C24", "Flyway diff is SQL that turns the old schema into the new one",
  "The Flyway diff of two schemas is valid MySQL DDL which, applied to the database the MySQL export makes of the old schema, gives the tables of the new schema: tables created, dropped and renamed, columns added, primary keys, nullability and auto-increment changed, with all other attributes of the columns kept. Tables that did not change, and with --groups the tables of other groups, are left alone, and the diff is the same on every run. Column order and indices of tables that exist already are outside.",
  ["inputs", "histories", "configurations"], "every pair of valid schemas with SQL-usable names, in particular a schema and the result of a sequence of edits to it",
  "there is no test of the diff commands",
  ["format/diff/diff.go", "format/diff/flyway.go", "format/diff/mysql.go", "format/mysql/exporter.go"],
  [("MysqlQueryBuilder.ToSQL", "format/diff/mysql.go")],
  GEN + "model database: edit sequences generated, the SQL read by an independent interpreter and applied to the old state must give the new state",
  "random edit sequences; the kinds of change the code leaves as TODO are known findings and not generated"),
P("C12", "GORM source has one faithful struct per table and compiles",
  "The generated Go source compiles and has exactly one struct per selected table, in canonical order, named by its class name or its name without the removed prefixes plus the prefix of its group. The struct embeds the models whose columns it all has and has one field for each other column, in order, whose Go type fits the column type and nullability, which GORM maps to the column's name, and whose tag states exactly its size, keys, indices with priority, auto-increment and not-null; several unique columns share one named unique index. Each resolvable reference gives an association field with foreign key, referenced field and cardinality. TableName returns the table name of the schema.",
  IC, "every valid schema and every combination of the documented options",
  "the tests compare a few fixed structs",
  ["format/gorm/generator.go", "format/gorm/gorm.go", "format/gorm/gorm_model.go"],
  [("Generator.Generate", "format/gorm/generator.go")],
  GEN + "Go parser and type checker plus reference model",
  "the output is parsed with go/parser and compared with a reference model"),
P("C13", "JPA Kotlin source has one faithful entity per table",
  "The generated Kotlin is well formed, imports what it uses, and has one file per selected table in the directory of the package, with one data class named by the table's class name or its name without the removed prefixes plus the prefix of its group. The class states the table name, one unique constraint (table name plus the given suffix) over the unique columns and the annotations of its group, and has one property per column in order, whose Kotlin type, nullability and default fit the column and whose annotations state exactly its id, generated value, Lob, column name (where it does not follow from the property), nullability, length, precision, scale, audit timestamps and, with --relation VRelation, the class and field it refers to. Composite keys get a serializable id class, --idEntity a super type whose id is overridden, and --reposPackage one repository per table with a primary key.",
  IC, "every valid schema and every combination of the documented options",
  "the tests compare a few fixed classes",
  ["format/jpa/kotlin-gen.go", "format/jpa/kotlin.go", "format/jpa/cli.go"],
  [("KtGenerator", "format/jpa/kotlin-gen.go")],
  GEN + "Kotlin declaration reader plus reference model",
  "an independent reader of the generated declarations compared with a reference model"),
P("C14", "SQLAlchemy source loads and defines exactly the schema",
  "The generated Python loads and defines exactly one declarative class per selected table in canonical order, named by its class name or its name without the removed prefixes plus the prefix of its group, with the table name and one Column per column, in order, with its name, a fitting type with its size, precision and scale, primary key, auto-increment and nullability; a single unique column is unique, several share one constraint (table name plus the given suffix) that belongs to the table. Audit columns get their time defaults, in UTC with --useUTC, which also stores the other date-times as UTC. Everything a module uses is imported or defined in it, whether there is one file or one file per table.",
  IC, "every valid schema and every combination of the documented options, single and multi file output",
  "the tests compare one fixed class",
  ["format/sqlalchemy/generator.go", "format/sqlalchemy/sqlalchemy.go", "util/python.go"],
  [("Generator.Generate", "format/sqlalchemy/generator.go")],
  GEN + "the generated module is executed against recording stand-ins for sqlalchemy",
  "python3 executes the output with stub modules that record every class, column and constraint"),
P("C15", "Protobuf definition has one valid message per table",
  "The generated file is valid proto3 with one message per selected table in canonical order, named by the table without the removed prefixes plus the prefix of its group. The fields of a message are the columns in order, numbered from 1, with fitting types, followed by one relation field for each reference to a generated message, repeated exactly for 1:n, numbered up or down from --relationTagStart as long as that does not overlap the columns; names and numbers are distinct. Package and go_package are as given and the Timestamp file is imported exactly when it is used.",
  IC, "every valid schema and every combination of the documented options",
  "the tests compare a few fixed messages",
  ["format/protobuf/generator.go", "format/protobuf/cli.go"],
  [("Generator.Generate", "format/protobuf/generator.go")],
  GEN + "proto3 parser plus reference model",
  "an independent proto3 reader compared with a reference model"),
P("C16", "GraphQL schema has one valid type per table",
  "The generated file, named by the schema's name and version in the output directory, is valid SDL: a Query type with one uniquely named list query per table (the plural of its class name) and one type per table in canonical order, named by its class name or its name, whose fields are the columns in order with fitting types, non-null exactly for not-null columns, and ID! for a single primary key.",
  IC, "every valid schema and every combination of the documented options",
  "there is no test of the GraphQL generator",
  ["format/graphql/generator.go", "format/graphql/cli.go"],
  [("Generator.Generate", "format/graphql/generator.go")],
  GEN + "SDL reader plus reference model",
  "an independent SDL reader compared with a reference model"),
P("C17", "DBML export is faithful",
  "The exported DBML is syntactically valid, with all texts quoted so that they read back unchanged, and states exactly the selected tables in canonical order, their columns in order with sized type, key, unique, not-null, default (a literal, a string or an expression) and note settings, and every reference between two exported tables once, with its direction.",
  IC, "every valid schema, with and without --groups",
  "there is no test of the DBML exporter",
  ["format/dbml/exporter.go", "format/dbml/cli.go"],
  [("Exporter.Export", "format/dbml/exporter.go")],
  GEN + "DBML reader plus reference model",
  "an independent DBML reader compared with a reference model"),
P("C18", "PlantUML diagram shows every table, column and relation",
  "The generated PlantUML, written to the output file or to output.plantuml in the output directory, is one diagram with one entity per table in canonical order, which lists its columns in order with type, the not-null mark and the PK, UQ and FK marks, with a separator before the first column that is not part of the key, and draws each reference with the cardinality of its relationship.",
  IC, "every valid schema, with and without --groups",
  "there is no test of the PlantUML generator",
  ["format/plantuml/generator.go", "format/plantuml/cli.go"],
  [("Generator.Generate", "format/plantuml/generator.go")],
  GEN + "diagram reader plus reference model",
  "an independent reader compared with a reference model"),
P("C19", "QuickDBD export is faithful",
  "The exported QuickDBD text has every table in canonical order with its description, and its columns in order, one per line whatever the texts contain, with type, key, unique, null, auto-increment, default and description, and each reference with its direction and target.",
  I, "every valid schema",
  "there is no test of the QuickDBD exporter",
  ["format/quickdbd/exporter.go", "format/quickdbd/cli.go"],
  [("Exporter.Export", "format/quickdbd/exporter.go")],
  GEN + "QuickDBD reader plus reference model",
  "an independent reader compared with a reference model"),
P("C20", "The group filter equals removing the other groups",
  "Running any command that takes a group filter with a filter gives the same files and exit status as running it without one on schemas from which the tables of all other groups are removed (matching group names exactly), and a filter that names no existing group selects no table. For the diff commands this is claimed of schemas in which no table changes its group; a table that moves between groups belongs to C10, C11 and C24.",
  IC, "every valid schema, every choice of groups and every command with a group option",
  "no test uses the group option of any command",
  ["format/octopus/filter.go"],
  [("GetTableFilterFn", "format/octopus/filter.go")],
  GEN + "metamorphic relation between filtered and restricted runs",
  "each command runs twice: filter option, and restricted schema"),
P("C21", "Output depends only on the schema and the options",
  "Running a command again on the same input with the same options, in another directory and environment, writes the same bytes, and reordering the tables or JSON members of a schema file, the sheets of a workbook, or spelling out members that have their default value changes nothing.",
  IC, "every command, every valid schema and any order of its tables; any run",
  "tests run each generator once; iteration over Go maps shows only over many runs",
  ["format/octopus/types.go", "format/gorm/generator.go", "format/liquibase/diff.go", "format/diff/diff.go"],
  [("table sorting on load", "format/octopus/types.go")],
  GEN + "repeated runs and permuted inputs compared byte by byte",
  "each case runs a command several times in fresh processes on permuted files"),
P("C22", "Bad input ends in a clean error that leaves files alone",
  "On any input file whatever, each command either succeeds and writes its output or stops with an error message and a non-zero exit status; it never panics, hangs or runs out of memory. A file that cannot be read as its format (JSON that is not valid or gives a member the wrong type, SQL that is cut off inside a statement, a workbook that is no zip archive) is refused. When a command refuses its input, an output file that existed before is unchanged and no partial output file appears.",
  IC, "every byte sequence as input file, in particular damaged valid files, and every command",
  "no test feeds a damaged file",
  ["format/octopus/io.go", "format/mysql/importer.go", "format/xlsx/importer.go", "format/ojson/importer.go", "format/staruml/importer.go"],
  [("input parsing", "format/octopus/io.go")],
  "structured fuzzing (rapid): mutated valid files of every input format, crash and side-effect oracle",
  "mutations of valid files at byte, token and JSON value level"),
P("C23", "Commands write what was asked for and nothing else",
  "A command reads its input files without changing them and creates or replaces only the requested output file or the documented files below the requested output directory, whatever stood there before and however the path is written; it exits with an error when the output cannot be written. init without an output creates db.json, and every command accepts what init creates.",
  IC, "every command and every valid schema, with output names that are new, existing, in other directories or relative",
  "tests call the generators in process with a buffer",
  ["util/io.go", "format/octopus/cli.go", "format/jpa/kotlin-gen.go", "format/sqlalchemy/generator.go"],
  [("file writers", "util/io.go")],
  GEN + "file tree before and after compared with the documented outputs",
  "whole scratch tree snapshots before and after each run"),
P("C25", "Every documented way to give an option means the same",
  "For every command, giving an option by its long name, its short alias, the --name=value form or its documented environment variable, and in any order, writes the same output; an option on the command line wins over its environment variable.",
  I, "every command, every valid input and every combination of its documented options and of the ways to give them",
  "no test runs the command line",
  ["main.go", "format/gorm/cli.go", "format/jpa/cli.go", "format/mysql/cli.go", "format/protobuf/cli.go", "format/diff/cli.go"],
  [("command line flags", "main.go")],
  GEN + "metamorphic relation between spellings of the same command line",
  "each case runs a command with long options and with drawn spellings"),
]
BUILT = {"C%02d" % i for i in range(1, 20)} | {"C20", "C21", "C22", "C23", "C24", "C25"}
for _p in props:
    if _p["id"] in BUILT:
        continue
    NOTBUILT[_p["id"]] = "applicable; the check is still being built"
