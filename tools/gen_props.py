#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run from /verif)."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTBUILT = {}          # id -> reason, for properties without a check

def P(id, title, statement, over, text, why, files, mech, technique, note):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note)

GEN = "property-based testing (rapid): "
I = ["inputs"]
IC = ["inputs", "configurations"]
IH = ["inputs", "histories"]
props = [
P("C01", "Octopus files load and save losslessly, canonically and only when valid",
  "Saving a loaded schema and loading it again gives the same schema: every table, column, reference, index and attribute survives, column types are spelled canonically whatever alias or case they were written in, auto-increment stays only on integer columns, and tables come out ordered by group, then name. Loading is idempotent and independent of the order of the tables in the file. Saving a schema that has a column with an unknown type or without a name, an enum or set column without values or a set of more than 64 is refused with an error and writes nothing, and when such a file is only read, its other columns are still normalised.",
  I, "every octopus JSON schema, valid or with an invalid column in any place, with any documented type alias in any letter case",
  "no test of the repository loads or saves an octopus file at all; normalisation is only reached through hand-written structs",
  ["format/octopus/types.go", "format/octopus/column.go", "format/octopus/table.go", "format/octopus/io.go"],
  [("Schema.Normalize / FromJson / ToJson", "format/octopus/types.go"), ("Column.NormalizeType, Validate", "format/octopus/column.go")],
  GEN + "load/save round trip against a reference normaliser, plus mutation to invalid files",
  "random schemas with aliases in any case; reference normaliser in the harness; permuted table order; invalid columns must be rejected"),
P("C02", "MySQL export writes exactly the schema as valid DDL",
  "Exporting a valid schema to MySQL writes DDL that a MySQL parser accepts and that defines exactly the selected tables in canonical order, each with exactly its columns in order: MySQL type, size and scale, NOT NULL, auto-increment, default and on-update (functions bare, literals quoted and escaped), enum values and comment. Each table has the primary key made of its primary key columns, one unique key (table name plus the given suffix) made of its unique columns, and its indices.",
  IC, "every valid schema whose names are usable as unquoted SQL identifiers, any texts including quotes, backslashes and newlines, with and without --groups and --uniqueNameSuffix",
  "the tests compare the text for a handful of fixed tables without special characters, enums, several keys or groups",
  ["format/mysql/exporter.go", "format/mysql/cli.go"],
  [("Exporter.Export and its column formatting", "format/mysql/exporter.go")],
  GEN + "independent strict DDL reader plus a MySQL parser as oracle",
  "generated schemas exported by the CLI, the DDL read back by an independent reader and compared with a reference model"),
P("C03", "MySQL import reads every supported DDL construct faithfully",
  "Importing a MySQL dump gives a schema with exactly the tables of its CREATE TABLE statements and, for each column, the canonical type, size, scale, NOT NULL, auto-increment, default, on-update, enum or set values and comment that the DDL states. Column-level and table-level primary, unique and index keys arrive on the right columns and in the right order; other statements, comments and table options do not disturb the result.",
  I, "every syntactically valid dump over the supported types and constructs, in any spelling (quoting, letter case, column order of attributes, inline or table-level keys) with other statements in between",
  "the tests import a few fixed statements",
  ["format/mysql/importer.go"],
  [("Importer.Import / column and constraint conversion", "format/mysql/importer.go")],
  GEN + "dump generator with the expected schema known by construction",
  "the generator writes the DDL text and the schema it means side by side; the imported file must equal it"),
P("C04", "MySQL export followed by import gives the schema back",
  "Exporting a schema to MySQL DDL and importing that DDL again reproduces every table, column name and order, type, size, scale, nullability, keys, indices, defaults, on-update values, enum values and column descriptions. Only what DDL cannot carry (groups, references, class names, table descriptions, schema meta) may be lost, author and version are the ones given on the import command line, and a bit column of size 1 comes back as the boolean that DDL writes the same way.",
  I, "every valid schema over the types the importer supports, with SQL-usable names",
  "exporter and importer are only tested apart, each against fixed text",
  ["format/mysql/exporter.go", "format/mysql/importer.go"],
  [("Exporter.Export", "format/mysql/exporter.go"), ("Importer.Import", "format/mysql/importer.go")],
  GEN + "round trip through the CLI against a reference projection",
  "generated schemas go through export mysql and import mysql; the result must equal the projection DDL can carry"),
]

exec(open(os.path.join(V, "tools", "more_props.py")).read())

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in props:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])), ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in props:
        if p["id"] in NOTBUILT:
            na.append(dict(property=p["id"], reason=NOTBUILT[p["id"]]))
            continue
        checks.append(dict(property=p["id"], quick_cmd="./check.sh " + p["id"], thorough_cmd="VERIF_TIER=thorough ./check.sh " + p["id"],
            technique=p["technique"], level="exploration", level_note=p["note"]))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na)
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
main()
