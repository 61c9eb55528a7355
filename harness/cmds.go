package main

// A table of all commands, for the properties that hold of every command.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

type optSpec struct {
	key, flag, alias, env string
	boolean               bool
}

type cmdSpec struct {
	name   string
	words  []string
	dirOut bool // the output is a directory
	diff   bool
	ext    string // of the input file
	outs   []string
	opts   []optSpec
	gen    func(t *rapid.T) *Case
	input  func(c *Case) []byte // nil: the schema
}

var (
	oGroups  = optSpec{"groups", "groups", "g", "OCTOPUS_GROUPS", false}
	oSuffixU = optSpec{"suffix", "uniqueNameSuffix", "u", "OCTOPUS_UNIQUE_NAME_SUFFIX", false}
	oSuffixQ = optSpec{"suffix", "uniqueNameSuffix", "q", "OCTOPUS_UNIQUE_NAME_SUFFIX", false}
	oComment = optSpec{"comments", "comments", "c", "OCTOPUS_COMMENTS", true}
	oAuthor  = optSpec{"author", "author", "a", "OCTOPUS_AUTHOR", false}
	oInput   = optSpec{"input", "input", "i", "OCTOPUS_INPUT", false}
	oOutput  = optSpec{"output", "output", "o", "OCTOPUS_OUTPUT", false}
	oFrom    = optSpec{"from", "from", "f", "OCTOPUS_FROM", false}
	oTo      = optSpec{"to", "to", "t", "OCTOPUS_TO", false}
)

func rawInput(c *Case) []byte { return []byte(c.Raw) }

var commands = []*cmdSpec{
	{name: "export-dbml", words: []string{"export", "dbml"}, outs: []string{"o.dbml", "o.txt"}, opts: []optSpec{oGroups}, gen: genDBML},
	{name: "export-mysql", words: []string{"export", "mysql"}, outs: []string{"o.sql", "ddl"}, opts: []optSpec{oGroups, oSuffixU}, gen: genMysqlExport},
	{name: "export-quickdbd", words: []string{"export", "quickdbd"}, outs: []string{"o.txt", "o"}, gen: genQuickdbd},
	{name: "export-xlsx", words: []string{"export", "xlsx"}, outs: []string{"o.xlsx"}, opts: []optSpec{{"null", "useNullColumn", "", "OCTOPUS_USE_NULL_COLUMN", true}}, gen: genXlsxRound},
	{name: "generate-gorm", words: []string{"generate", "gorm"}, outs: []string{"o.go", "x/o.go", "out", "model/db"}, gen: genGorm, opts: []optSpec{oGroups, oSuffixU,
		{"package", "package", "k", "OCTOPUS_PACKAGE", false}, {"prefix", "prefix", "p", "OCTOPUS_PREFIX", false}, {"removePrefix", "removePrefix", "r", "OCTOPUS_REMOVE_PREFIX", false},
		{"embed", "embed", "e", "OCTOPUS_EMBED", false}, {"pointer", "pointerAssociation", "a", "OCTOPUS_POINTER_ASSOCIATION", true}}},
	{name: "generate-graphql", words: []string{"generate", "graphql"}, dirOut: true, outs: []string{"out", "a/b.c"}, gen: genGraphql, opts: []optSpec{{"package", "graphqlPackage", "p", "OCTOPUS_GRAPHQL_PACKAGE", false}}},
	{name: "generate-kt", words: []string{"generate", "kt"}, dirOut: true, outs: []string{"out", "src/main/kotlin"}, gen: genJPA, opts: []optSpec{oGroups, oSuffixQ,
		{"annotation", "annotation", "a", "OCTOPUS_ANNOTATION", false}, {"idEntity", "idEntity", "e", "OCTOPUS_ID_ENTITY", false}, {"package", "package", "p", "OCTOPUS_PACKAGE", false},
		{"prefix", "prefix", "f", "OCTOPUS_PREFIX", false}, {"relation", "relation", "l", "OCTOPUS_RELATION", false}, {"removePrefix", "removePrefix", "d", "OCTOPUS_REMOVE_PREFIX", false},
		{"reposPackage", "reposPackage", "r", "OCTOPUS_REPOS_PACKAGE", false}, {"useUTC", "useUTC", "u", "OCTOPUS_USE_UTC", true}}},
	{name: "generate-liquibase", words: []string{"generate", "liquibase"}, outs: []string{"o.yaml", "lb.yml"}, opts: []optSpec{oGroups, oSuffixU, oComment}, gen: genLbCreate},
	{name: "generate-plantuml", words: []string{"generate", "plantuml"}, outs: []string{"o.puml", "o.wsd", "dir/out"}, gen: genPlantuml},
	{name: "generate-pb", words: []string{"generate", "pb"}, outs: []string{"o.proto", "model.proto"}, gen: genProto, opts: []optSpec{oGroups,
		{"package", "package", "p", "OCTOPUS_PACKAGE", false}, {"goPackage", "goPackage", "", "OCTOPUS_GO_PACKAGE", false}, {"prefix", "prefix", "f", "OCTOPUS_PREFIX", false},
		{"removePrefix", "removePrefix", "d", "OCTOPUS_REMOVE_PREFIX", false}, {"start", "relationTagStart", "s", "OCTOPUS_RELATION_TAG_START", false}, {"decr", "relationTagDecr", "", "OCTOPUS_RELATION_TAG_DECR", true}}},
	{name: "generate-sqlalchemy", words: []string{"generate", "sqlalchemy"}, outs: []string{"o.py", "models", "a/b"}, gen: genSA, opts: []optSpec{oGroups, oSuffixU,
		{"prefix", "prefix", "p", "OCTOPUS_PREFIX", false}, {"removePrefix", "removePrefix", "r", "OCTOPUS_REMOVE_PREFIX", false}, {"useUTC", "useUTC", "t", "OCTOPUS_USE_UTC", true}}},
	{name: "diff-flyway", words: []string{"diff", "flyway"}, diff: true, outs: []string{"V2__x.sql", "o"}, opts: []optSpec{oGroups, oSuffixU, oComment, oAuthor}, gen: genFlyway},
	{name: "diff-liquibase", words: []string{"diff", "liquibase"}, diff: true, outs: []string{"diff.yaml", "o"}, opts: []optSpec{oGroups, oSuffixU, oComment, oAuthor}, gen: genLbDiff},
	{name: "diff-md", words: []string{"diff", "md"}, diff: true, outs: []string{"diff.md", "o"}, opts: []optSpec{oGroups, oSuffixU, oComment, oAuthor}, gen: genMdEdits},
	{name: "import-mysql", words: []string{"import", "mysql"}, ext: "sql", outs: []string{"o.json", "db"}, gen: genMysqlDump, input: rawInput, opts: []optSpec{oAuthor,
		{"version", "version", "v", "OCTOPUS_VERSION", false}, {"excludes", "excludes", "x", "OCTOPUS_EXCLUDES", false}}},
	{name: "import-ojson", words: []string{"import", "ojson"}, ext: "ojson", outs: []string{"o.json"}, gen: genOjson, input: rawInput},
	{name: "import-staruml", words: []string{"import", "staruml"}, ext: "mdj", outs: []string{"o.json"}, gen: genStar, input: rawInput},
	{name: "import-xlsx", words: []string{"import", "xlsx"}, ext: "xlsx", outs: []string{"o.json"}, gen: genXlsxImport, input: func(c *Case) []byte { return c.Book.Bytes() }},
}

func command(name string) *cmdSpec {
	for _, sp := range commands {
		if sp.name == name {
			return sp
		}
	}
	infra("no command %q", name)
	return nil
}

func (sp *cmdSpec) opt(key string) bool {
	for _, o := range sp.opts {
		if o.key == key {
			return true
		}
	}
	return false
}

// genCmd draws a command and a case for it.
func genCmd(t *rapid.T, keep func(*cmdSpec) bool) (*cmdSpec, *Case) {
	var sel []*cmdSpec
	for _, sp := range commands {
		if keep == nil || keep(sp) {
			sel = append(sel, sp)
		}
	}
	sp := pick(t, sel, "cmd")
	c := sp.gen(t)
	if c.Opts == nil {
		c.Opts = map[string]string{}
	}
	if sp.name == "generate-kt" && c.flag("relation") {
		// virtual relations to tables that are not generated are refused
		sel := c.Schema
		if g := splitGroups(c.opt("groups")); g != nil {
			sel = sel.Filter(g)
		}
		for _, tb := range c.Schema.Tables {
			for _, x := range tb.Columns {
				if x.Ref != nil && sel.Table(x.Ref.Table) == nil {
					x.Ref = nil
				}
			}
		}
	}
	delete(c.Opts, "output")
	c.Opts["cmd"] = sp.name
	c.Opts["out"] = pick(t, sp.outs, "out")
	return sp, c
}

// inFiles are the input files of a command: name and content.
func (sp *cmdSpec) inFiles(c *Case) []struct {
	opt  optSpec
	name string
	data []byte
} {
	type f = struct {
		opt  optSpec
		name string
		data []byte
	}
	name := "in.json"
	if n := c.opt("inName"); n != "" {
		name = n
	}
	switch {
	case sp.diff:
		return []f{{oFrom, "from.json", c.Schema.JSON()}, {oTo, "to" + strings.TrimPrefix(name, "in"), c.Schema2.JSON()}}
	case sp.input != nil:
		if c.flag("damaged") {
			return []f{{oInput, "in." + sp.ext, c.RawB64}}
		}
		return []f{{oInput, "in." + sp.ext, sp.input(c)}}
	}
	return []f{{oInput, name, c.Schema.JSON()}}
}

// cmdLine builds the arguments and environment; style says how each option is
// given: long (default), eq, alias, env or both (an environment variable that
// the option overrides).
func (sp *cmdSpec) cmdLine(c *Case, inDir, out string) (args, env []string) {
	args = append(args, sp.words...)
	add := func(o optSpec, v string) {
		style := c.opt("style." + o.key)
		if style == "alias" && o.alias == "" {
			style = "long"
		}
		if o.boolean {
			switch style {
			case "alias":
				args = append(args, "-"+o.alias)
			case "eq":
				args = append(args, "--"+o.flag+"=true")
			case "env":
				env = append(env, o.env+"=true")
			case "both":
				env = append(env, o.env+"=false")
				args = append(args, "--"+o.flag)
			default:
				args = append(args, "--"+o.flag)
			}
			return
		}
		switch style {
		case "alias":
			args = append(args, "-"+o.alias, v)
		case "eq":
			args = append(args, "--"+o.flag+"="+v)
		case "env":
			env = append(env, o.env+"="+v)
		case "both":
			env = append(env, o.env+"=0")
			args = append(args, "--"+o.flag, v)
		default:
			args = append(args, "--"+o.flag, v)
		}
	}
	var all []func()
	for _, f := range sp.inFiles(c) {
		f := f
		all = append(all, func() { add(f.opt, filepath.Join(inDir, f.name)) })
	}
	all = append(all, func() { add(oOutput, out) })
	for _, o := range sp.opts {
		o := o
		if v := c.opt(o.key); v != "" {
			all = append(all, func() { add(o, v) })
		}
	}
	if c.flag("reverseArgs") {
		for i, j := 0, len(all)-1; i < j; i, j = i+1, j-1 {
			all[i], all[j] = all[j], all[i]
		}
	}
	for _, f := range all {
		f()
	}
	return args, env
}

// runCmd runs the command of a case in a scratch directory of its own and
// returns the files it made, relative to the place of the output.
func runCmd(e *Env, c *Case, mod func(name string, data []byte) []byte, extraEnv ...string) (*Result, map[string]string) {
	sp := command(c.opt("cmd"))
	dir, done := e.Scratch()
	defer done()
	for _, f := range sp.inFiles(c) {
		data := f.data
		if mod != nil {
			data = mod(f.name, data)
		}
		write(filepath.Join(dir, "in", f.name), data)
	}
	out := filepath.Join(dir, "w", c.opt("out"))
	mkdir(filepath.Dir(out))
	args, env := sp.cmdLine(c, filepath.Join(dir, "in"), out)
	r := e.Run(dir, e.Oct, append(env, extraEnv...), args...)
	files := map[string]string{}
	for k, v := range tree(dir) {
		if !strings.HasPrefix(k, "in/") && !strings.HasSuffix(k, "/") {
			files[k] = v
		}
	}
	return r, files
}

func mkdir(p string) {
	if err := os.MkdirAll(p, 0755); err != nil {
		infra("mkdir: %v", err)
	}
}

// sameFiles compares two results of a command.
func sameFiles(a, b map[string]string) string {
	for _, k := range sortedKeys(a) {
		v, ok := b[k]
		if !ok {
			return fmt.Sprintf("file %s is written only by the first", k)
		}
		if strings.HasSuffix(k, ".xlsx") {
			x, e1 := readBook([]byte(a[k]))
			y, e2 := readBook([]byte(v))
			if e1 != nil || e2 != nil {
				return fmt.Sprintf("unreadable workbook: %v %v", e1, e2)
			}
			p, _ := json.Marshal(x)
			q, _ := json.Marshal(y)
			if string(p) != string(q) {
				return fmt.Sprintf("workbook %s differs:\n%s\n--- and\n%s", k, clip(string(p), 1500), clip(string(q), 1500))
			}
			continue
		}
		if v != a[k] {
			return fmt.Sprintf("file %s differs: %s", k, firstDiff(a[k], v))
		}
	}
	for _, k := range sortedKeys(b) {
		if _, ok := a[k]; !ok {
			return fmt.Sprintf("file %s is written only by the second", k)
		}
	}
	return ""
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		var p, q string
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q || i >= len(x) || i >= len(y) {
			return fmt.Sprintf("line %d is %q in the first, %q in the second", i+1, clip(p, 200), clip(q, 200))
		}
	}
	return "?"
}

// shuffleJSON writes a JSON object file in another order: the tables, and the
// members of every object; optional members may be spelled out.
func shuffleJSON(data []byte, seed int64) []byte {
	rnd := rand.New(rand.NewSource(seed))
	var v interface{}
	if err := json.Unmarshal(data, &v); err != nil {
		infra("shuffle: %v", err)
	}
	if m, ok := v.(map[string]interface{}); ok {
		if ts, ok := m["tables"].([]interface{}); ok {
			rnd.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
		}
	}
	var b strings.Builder
	sp := func() { b.WriteString([]string{"", " ", "\n\t", ""}[rnd.Intn(4)]) }
	var put func(v interface{}, path string)
	put = func(v interface{}, path string) {
		switch x := v.(type) {
		case map[string]interface{}:
			if strings.HasSuffix(path, "/columns") && rnd.Intn(4) == 0 {
				for k, d := range map[string]interface{}{"notnull": false, "pk": false, "unique": false, "autoinc": false, "size": 0, "desc": "", "default": "", "ref": nil} {
					if _, ok := x[k]; !ok {
						x[k] = d
					}
				}
			}
			ks := make([]string, 0, len(x))
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			rnd.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
			b.WriteString("{")
			for i, k := range ks {
				if i > 0 {
					b.WriteString(",")
				}
				sp()
				kb, _ := json.Marshal(k)
				b.Write(kb)
				sp()
				b.WriteString(":")
				sp()
				put(x[k], path+"/"+k)
			}
			sp()
			b.WriteString("}")
		case []interface{}:
			b.WriteString("[")
			for i, y := range x {
				if i > 0 {
					b.WriteString(",")
				}
				sp()
				put(y, path)
			}
			sp()
			b.WriteString("]")
		default:
			vb, _ := json.Marshal(x)
			b.Write(vb)
		}
	}
	put(v, "")
	sp()
	return []byte(b.String())
}

// shuffleTables reorders only the tables of a JSON schema file.
func shuffleTables(data []byte, seed int64) []byte {
	var m map[string]json.RawMessage
	var ts []json.RawMessage
	if json.Unmarshal(data, &m) != nil || json.Unmarshal(m["tables"], &ts) != nil {
		return data
	}
	rand.New(rand.NewSource(seed)).Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
	m["tables"], _ = json.Marshal(ts)
	b, _ := json.Marshal(m)
	return b
}
