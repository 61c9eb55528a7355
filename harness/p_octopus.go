package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"
)

// C01: the octopus file is a lossless, canonical store.

func octSchemaOpt() SchemaOpt {
	return SchemaOpt{
		MaxTables: 6, MaxCols: 6,
		Types: canonicalTypes, Aliases: true,
		TableName: NameOpt{Upper: true, Awkward: true, Under: true}, ColName: NameOpt{Upper: true, Awkward: true, Under: true},
		TableKey: func(s string) string { return s }, ColKey: func(s string) string { return s },
		Groups: []string{"", "a", "b", "Common", "한"}, TableText: TextAny, ColText: TextAny, ValueText: TextAny, StringDefault: TextAny, EmptyValue: true,
		Refs: true, Dangling: true, RefRel: []string{"n:1", "1:1", "1:n", ""}, Indices: true, Sizes: true, OddSizes: true, Defaults: true, DefaultFn: true,
		OnUpdate: true, Meta: true, ClassNames: true, NoPKPct: 20, MultiPKPct: 30, UniquePct: 25,
	}
}

func genOctValid(t *rapid.T) *Case {
	so := octSchemaOpt()
	if chance(t, 8, "many") { // enough tables that an unstable sort shows
		so.MinTables, so.MaxTables, so.MaxCols = 10, 18, 2
	}
	s := genSchema(t, so)
	if chance(t, 10, "caseNames") { // names that differ in nothing but case
		for i, tb := range s.Tables[1:] {
			b := []byte(s.Tables[0].Name)
			for k := range b {
				if (i+1)>>uint(k)&1 == 1 && (b[k] >= 'a' && b[k] <= 'z' || b[k] >= 'A' && b[k] <= 'Z') {
					b[k] ^= 0x20
				}
			}
			if s.Table(string(b)) == nil {
				tb.Name = string(b)
				if rapid.Bool().Draw(t, "sameGroup") {
					tb.Group = s.Tables[0].Group
				}
			}
		}
	}
	for _, tb := range s.Tables {
		for _, c := range tb.Columns {
			if chance(t, 6, "oddAuto") { // only integers may be auto incremental: loading turns it off elsewhere
				c.AutoInc = true
			}
			if chance(t, 4, "oddSize") {
				c.Size = rapid.IntRange(0, 65535).Draw(t, "anySize")
				c.Scale = rapid.IntRange(0, 65535).Draw(t, "anyScale")
			}
			if c.Type == "set" && chance(t, 20, "bigSet") {
				c.Values = nil
				for i := 0; i < pick(t, []int{1, 63, 64}, "setN"); i++ {
					c.Values = append(c.Values, fmt.Sprintf("v%d", i))
				}
			}
		}
	}
	return &Case{Schema: s, Opts: map[string]string{
		"name":  pick(t, []string{"in.json", "in.JSON", "in.ojson", "a.b.json", "한.json"}, "fname"),
		"shift": fmt.Sprint(rapid.IntRange(0, 5).Draw(t, "shift")),
	}}
}

// strictParse reads an octopus file accepting only documented keys.
func strictParse(b []byte) (*Schema, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.DisallowUnknownFields()
	var s Schema
	if err := d.Decode(&s); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("trailing data")
	}
	return &s, nil
}

func checkOctValid(e *Env, c *Case) *Outcome {
	o := &Outcome{}
	schemaLabels(o, c.Schema)
	dir, done := e.Scratch()
	defer done()
	in, out, again := filepath.Join(dir, c.opt("name")), filepath.Join(dir, "out.json"), filepath.Join(dir, "again.json")
	write(in, c.Schema.JSON())
	if r := e.Run(dir, e.Helper, nil, "save", in, out); !r.OK() {
		o.failf("loading and saving a valid file failed: %s", r.Brief())
		return o
	}
	got, err := strictParse([]byte(read(out)))
	if err != nil {
		o.failf("saved file is not a documented octopus file: %v\n%s", err, clip(read(out), 1500))
		return o
	}
	if d := diffSchemas(c.Schema.Normalize(), got); d != "" {
		o.failf("load and save changed the schema: %s", d)
		return o
	}
	if read(in) != string(c.Schema.JSON()) {
		o.failf("the input file was changed")
	}
	// saving again is the identity
	if r := e.Run(dir, e.Helper, nil, "save", out, again); !r.OK() || read(again) != read(out) {
		o.failf("saving a saved file again gives a different file (%s)", r.Brief())
		return o
	}
	// the order of tables in the file does not matter
	p := c.Schema.Clone()
	n := len(p.Tables)
	var k int
	fmt.Sscan(c.opt("shift"), &k)
	p.Tables = nil
	for i := range c.Schema.Tables {
		p.Tables = append(p.Tables, c.Schema.Tables[(n-1-i+k)%n])
	}
	in2, out2 := filepath.Join(dir, "perm.json"), filepath.Join(dir, "perm-out.json")
	write(in2, p.JSON())
	if r := e.Run(dir, e.Helper, nil, "save", in2, out2); !r.OK() || read(out2) != read(out) {
		o.failf("reordering the tables of the input changed the saved file (%s)", r.Brief())
	}
	return o
}

// an invalid column somewhere in an otherwise valid schema
func genOctInvalid(t *rapid.T) *Case {
	s := genSchema(t, octSchemaOpt())
	tb := pick(t, s.Tables, "badTable")
	c := pick(t, tb.Columns, "badCol")
	kind := pick(t, []string{"type", "name", "enum", "set0", "set65"}, "badKind")
	switch kind {
	case "type":
		c.Type = pick(t, []string{"invalidtype", "varchar2", "int128", "", "uuid", "blob64", "varchar(20)", "money", "dec", "fixed", "serial", "character", "nvarchar", "double precision", "int 32", " int", "tiny int", "datetime2", "ints", "text64", "int256", "jsonb"}, "badType")
	case "name":
		c.Name = ""
	case "enum":
		c.Type, c.Values = pick(t, []string{"enum", "ENUM"}, "enumSp"), nil
	case "set0":
		c.Type, c.Values = "set", nil
	case "set65":
		c.Type, c.Values = "set", nil
		for i := 0; i < pick(t, []int{65, 66, 100}, "n65"); i++ {
			c.Values = append(c.Values, fmt.Sprintf("v%d", i))
		}
	}
	return &Case{Schema: s, Opts: map[string]string{"kind": kind, "prev": pick(t, []string{"", "keep me"}, "prev")}}
}

func checkOctInvalid(e *Env, c *Case) *Outcome {
	o := &Outcome{}
	o.label("invalid-" + c.opt("kind"))
	dir, done := e.Scratch()
	defer done()
	in, out, mem := filepath.Join(dir, "in.json"), filepath.Join(dir, "out.json"), filepath.Join(dir, "mem.json")
	write(in, c.Schema.JSON())
	if p := c.opt("prev"); p != "" {
		write(out, []byte(p))
	}
	r := e.Run(dir, e.Helper, nil, "save", in, out)
	if r.Crashed() {
		o.failf("saving an invalid schema crashed: %s", r.Brief())
		return o
	}
	if r.OK() {
		o.failf("a schema with an invalid column (%s) was saved", c.opt("kind"))
		return o
	}
	if read(out) != c.opt("prev") {
		o.failf("a rejected schema still changed the output file to %q", clip(read(out), 200))
		return o
	}
	// reading is either refused or still normalises every other column
	r = e.Run(dir, e.Helper, nil, "dump", in, mem)
	if r.Crashed() {
		o.failf("loading an invalid schema crashed: %s", r.Brief())
		return o
	}
	if r.OK() {
		got, err := strictParse([]byte(read(mem)))
		if err != nil {
			o.failf("dump: %v", err)
			return o
		}
		want := c.Schema.Normalize()
		for _, s := range []*Schema{want, got} {
			for _, tb := range s.Tables {
				for _, cl := range tb.Columns {
					if !canonicalSet[cl.Type] {
						cl.Type = strings.ToLower(cl.Type)
					}
					if cl.Name == "" {
						cl.AutoInc = false
					}
				}
			}
		}
		if d := diffSchemas(want, got); d != "" {
			o.failf("an invalid column changes how the rest of the file is read: %s", d)
		}
	}
	return o
}

func trivialOct(c *Case, o *Outcome) bool {
	if c.Scenario == "invalid" {
		return false
	}
	return trivialSchema(c, o)
}

func init() {
	register(&Property{
		ID: "C01", Title: "octopus file", Quick: 8000, Rule: schemaRule + "; every rejected-schema case counts as non-trivial", Trivial: trivialOct,
		Scenarios: []*Scenario{
			{Name: "valid", Weight: 3, Gen: genOctValid, Check: checkOctValid},
			{Name: "invalid", Weight: 1, Gen: genOctInvalid, Check: checkOctInvalid},
		},
	})
}
