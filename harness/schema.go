package main

// The harness's own model of an octopus schema file.  It shares nothing with
// the code under test but the documented JSON field names.

import (
	"encoding/json"
	"sort"
	"strings"
)

type Ref struct {
	Table        string `json:"table,omitempty"`
	Column       string `json:"column,omitempty"`
	Relationship string `json:"relationship,omitempty"`
}

type Col struct {
	Name     string   `json:"name"`
	Type     string   `json:"type"`
	Desc     string   `json:"desc,omitempty"`
	Size     int      `json:"size,omitempty"`
	Scale    int      `json:"scale,omitempty"`
	NotNull  bool     `json:"notnull,omitempty"`
	PK       bool     `json:"pk,omitempty"`
	Unique   bool     `json:"unique,omitempty"`
	AutoInc  bool     `json:"autoinc,omitempty"`
	Default  string   `json:"default,omitempty"`
	OnUpdate string   `json:"onupdate,omitempty"`
	Values   []string `json:"values,omitempty"`
	Ref      *Ref     `json:"ref,omitempty"`
}

type Index struct {
	Name    string   `json:"name"`
	Columns []string `json:"columns"`
}

type Table struct {
	Name      string   `json:"name,omitempty"`
	Columns   []*Col   `json:"columns,omitempty"`
	Desc      string   `json:"desc,omitempty"`
	Group     string   `json:"group,omitempty"`
	ClassName string   `json:"className,omitempty"`
	Indices   []*Index `json:"indices,omitempty"`
}

type Schema struct {
	Author  string   `json:"author,omitempty"`
	Name    string   `json:"name,omitempty"`
	Version string   `json:"version,omitempty"`
	Tables  []*Table `json:"tables,omitempty"`
}

func (s *Schema) JSON() []byte {
	b, err := json.MarshalIndent(s, "", " ")
	if err != nil {
		panic(err)
	}
	return b
}

func (s *Schema) Clone() *Schema {
	var r Schema
	if err := json.Unmarshal(s.JSON(), &r); err != nil {
		panic(err)
	}
	return &r
}

func ParseSchema(b []byte) (*Schema, error) {
	var r Schema
	if err := json.Unmarshal(b, &r); err != nil {
		return nil, err
	}
	return &r, nil
}

func (s *Schema) Table(name string) *Table {
	for _, t := range s.Tables {
		if t.Name == name {
			return t
		}
	}
	return nil
}

func (t *Table) Col(name string) *Col {
	for _, c := range t.Columns {
		if c.Name == name {
			return c
		}
	}
	return nil
}

func (t *Table) PKs() []*Col {
	var r []*Col
	for _, c := range t.Columns {
		if c.PK {
			r = append(r, c)
		}
	}
	return r
}

func (t *Table) Uniques() []*Col {
	var r []*Col
	for _, c := range t.Columns {
		if c.Unique {
			r = append(r, c)
		}
	}
	return r
}

func (s *Schema) Groups() []string {
	m := map[string]bool{}
	for _, t := range s.Tables {
		m[t.Group] = true
	}
	var r []string
	for g := range m {
		r = append(r, g)
	}
	sort.Strings(r)
	return r
}

// Filter keeps only the tables whose group is listed.
func (s *Schema) Filter(groups []string) *Schema {
	r := s.Clone()
	r.Tables = nil
	for _, t := range s.Clone().Tables {
		for _, g := range groups {
			if t.Group == g {
				r.Tables = append(r.Tables, t)
				break
			}
		}
	}
	return r
}

// Sorted returns the schema in canonical table order: by group, then name.
func (s *Schema) Sorted() *Schema {
	r := s.Clone()
	sort.SliceStable(r.Tables, func(i, j int) bool {
		a, b := r.Tables[i], r.Tables[j]
		if a.Group != b.Group {
			return a.Group < b.Group
		}
		return a.Name < b.Name
	})
	return r
}

var typeAliases = map[string]string{
	"string": "varchar", "tinyint": "int8", "smallint": "int16", "mediumint": "int24",
	"int": "int32", "integer": "int32", "bigint": "int64", "long": "int64",
	"numeric": "decimal", "real": "double", "timestamp": "datetime",
	"tinyblob": "blob8", "blob": "blob16", "mediumblob": "blob24", "longblob": "blob32",
	"tinytext": "text8", "text": "text16", "mediumtext": "text24", "longtext": "text32",
}

var canonicalTypes = []string{
	"binary", "bit", "blob16", "blob24", "blob32", "blob8", "boolean", "char", "date", "datetime",
	"decimal", "double", "enum", "float", "geometry", "int16", "int24", "int32", "int64", "int8", "json",
	"point", "set", "text16", "text24", "text32", "text8", "time", "varbinary", "varchar", "year",
}

var canonicalSet = strSet(canonicalTypes...)

func strSet(s ...string) map[string]bool {
	m := map[string]bool{}
	for _, x := range s {
		m[x] = true
	}
	return m
}

func canonType(t string) string {
	l := strings.ToLower(t)
	if c, ok := typeAliases[l]; ok {
		return c
	}
	return l
}

func isIntType(t string) bool {
	switch t {
	case "int8", "int16", "int24", "int32", "int64":
		return true
	}
	return false
}

func isFloatType(t string) bool { return t == "float" || t == "double" || t == "decimal" }
func isTextType(t string) bool {
	switch t {
	case "text8", "text16", "text24", "text32":
		return true
	}
	return false
}
func isBlobType(t string) bool {
	switch t {
	case "blob8", "blob16", "blob24", "blob32":
		return true
	}
	return false
}

// Normalize is the reference model of what loading a valid schema means.
func (s *Schema) Normalize() *Schema {
	r := s.Sorted()
	for _, t := range r.Tables {
		for _, c := range t.Columns {
			c.Type = canonType(c.Type)
			if c.AutoInc && !isIntType(c.Type) {
				c.AutoInc = false
			}
		}
	}
	return r
}

func splitFn(v string) (string, bool) {
	if strings.HasPrefix(v, "fn::") {
		return v[4:], true
	}
	return v, false
}
