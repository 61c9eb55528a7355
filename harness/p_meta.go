package main

// Properties that hold of every command: C20 group filter, C21 determinism,
// C23 file discipline, C25 ways to give an option.

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"
)

const cmdRule = "a random command with a random valid input and random options; a case is non-trivial when its input has at least two columns and a key, default, description, reference or index; distinct by hash of the whole case"

// ------------------------------------------------------------ C20 groups

var groupPool = []string{"a", "a", "b", "b", "ab", "A", "", "a b", "관리", "c"}

func genFilter(t *rapid.T) *Case {
	sp, c := genCmd(t, func(sp *cmdSpec) bool { return sp.opt("groups") })
	pool := groupPool
	if chance(t, 40, "fewGroups") {
		pool = []string{"a", "b"}
	} else if chance(t, 35, "nearGroups") {
		// names that are easily taken for one another
		g := rapid.StringMatching(`[A-Za-z][a-z0-9_]{0,5}`).Draw(t, "baseGroup")
		pool = []string{g, g}
		for i := 0; i < 4; i++ {
			x := rapid.StringMatching(`[a-z0-9]{1,2}`).Draw(t, "affix")
			sep := pick(t, []string{"", ".", "-", "_", "/", " ", ":"}, "sep")
			pool = append(pool, pick(t, []string{g + sep + x, x + sep + g, strings.ToUpper(g), strings.ToLower(g), g[:(len(g)+1)/2], g + g, g + " ", " " + g}, "near"))
		}
	}
	group := map[string]string{}
	for _, s := range []*Schema{c.Schema, c.Schema2} {
		if s == nil {
			continue
		}
		for _, tb := range s.Tables {
			if _, ok := group[tb.Name]; !ok {
				group[tb.Name] = pick(t, pool, "group")
			}
			tb.Group = group[tb.Name]
		}
	}
	n := rapid.IntRange(1, 3).Draw(t, "nSel")
	var sel []string
	for i := 0; i < n; i++ {
		g := pick(t, append(pool, "nosuchgroup"), "sel")
		if g != "" {
			sel = append(sel, g)
		}
	}
	if len(sel) == 0 {
		sel = []string{"a"}
	}
	c.Opts["groups"] = strings.Join(sel, ",")
	closed := sp.name == "generate-gorm" || sp.name == "generate-kt"
	if closed || rapid.Bool().Draw(t, "closed") {
		// references out of the selection would name tables the other run does not know
		in := strSet(sel...)
		for _, s := range []*Schema{c.Schema, c.Schema2} {
			if s == nil {
				continue
			}
			for _, tb := range s.Tables {
				for _, x := range tb.Columns {
					if x.Ref != nil && in[tb.Group] && (s.Table(x.Ref.Table) == nil || !in[s.Table(x.Ref.Table).Group]) {
						x.Ref = nil
					}
				}
			}
		}
	}
	return c
}

func checkFilter(e *Env, c *Case) *Outcome {
	o := &Outcome{}
	o.label(c.opt("cmd"))
	r1, f1 := runCmd(e, c, nil)
	d := *c
	d.Opts = map[string]string{}
	for k, v := range c.Opts {
		d.Opts[k] = v
	}
	delete(d.Opts, "groups")
	g := strings.Split(c.opt("groups"), ",")
	d.Schema = c.Schema.Filter(g)
	if c.Schema2 != nil {
		d.Schema2 = c.Schema2.Filter(g)
	}
	switch n := len(d.Schema.Tables); {
	case n == 0:
		o.label("none-selected")
	case n == len(c.Schema.Tables):
		o.label("all-selected")
	default:
		o.label("some-selected")
	}
	r2, f2 := runCmd(e, &d, nil)
	if r1.OK() != r2.OK() || r1.Crashed() || r2.Crashed() {
		o.failf("with --groups %q: %s; with the other tables removed: %s", c.opt("groups"), r1.Brief(), r2.Brief())
		return o
	}
	if !r1.OK() {
		o.label("both-refuse")
		return o
	}
	if d := sameFiles(f1, f2); d != "" {
		o.failf("--groups %q (first) and removing the other tables (second) differ: %s", c.opt("groups"), d)
	}
	return o
}

// ------------------------------------------------------- C21 determinism

func genSame(t *rapid.T) *Case {
	_, c := genCmd(t, nil)
	// table names that differ in nothing but case, where no class is made of them
	switch cmd := c.opt("cmd"); {
	case strings.HasPrefix(cmd, "generate-") && cmd != "generate-plantuml" && cmd != "generate-liquibase", strings.HasPrefix(cmd, "import-"):
	default:
		if len(c.Schema.Tables) > 1 && chance(t, 20, "caseNames") {
			a, b := c.Schema.Tables[0], c.Schema.Tables[1]
			n := strings.ToUpper(a.Name[:1]) + a.Name[1:]
			if c.Schema.Table(n) == nil && (c.Schema2 == nil || c.Schema2.Table(n) == nil) {
				b.Name, b.Group = n, a.Group
			}
		}
	}
	c.Opts["perm"] = strconv.Itoa(rapid.IntRange(1, 1<<30).Draw(t, "perm"))
	return c
}

func checkSame(e *Env, c *Case) *Outcome {
	o := &Outcome{}
	sp := command(c.opt("cmd"))
	o.label(sp.name)
	// at any time these two are in different days
	r1, f1 := runCmd(e, c, nil, "TZ=Etc/GMT+12")
	if !r1.OK() {
		o.failf("%s of a valid input failed: %s", sp.name, r1.Brief())
		return o
	}
	r2, f2 := runCmd(e, c, nil, "GOMAXPROCS=1", "TZ=Pacific/Kiritimati", "LANG=ko_KR.UTF-8", "USER=someone")
	if !r2.OK() {
		o.failf("%s failed the second time: %s", sp.name, r2.Brief())
		return o
	}
	if d := sameFiles(f1, f2); d != "" {
		o.failf("two runs of %s differ: %s", sp.name, d)
		return o
	}
	seed, _ := strconv.ParseInt(c.opt("perm"), 10, 64)
	var mod func(string, []byte) []byte
	switch {
	case strings.HasSuffix(sp.name, "staruml") || strings.HasSuffix(sp.name, "import-mysql"):
		return o
	case sp.name == "import-xlsx":
		mod = func(_ string, _ []byte) []byte {
			bk := &Book{}
			for i := range c.Book.Sheets {
				bk.Sheets = append(bk.Sheets, c.Book.Sheets[len(c.Book.Sheets)-1-i])
			}
			return bk.Bytes()
		}
	case sp.name == "import-ojson":
		mod = func(_ string, b []byte) []byte { return shuffleTables(b, seed) }
	default:
		mod = func(_ string, b []byte) []byte { return shuffleJSON(b, seed) }
	}
	o.label("permuted")
	r3, f3 := runCmd(e, c, mod)
	if !r3.OK() {
		o.failf("%s failed on a reordered input: %s", sp.name, r3.Brief())
		return o
	}
	if d := sameFiles(f1, f3); d != "" {
		o.failf("%s: input in the original order (first) and reordered (second) differ: %s", sp.name, d)
	}
	return o
}

// ---------------------------------------------------- C23 file discipline

func genFiles(t *rapid.T) *Case {
	_, c := genCmd(t, nil)
	c.Opts["place"] = pick(t, []string{"new", "existing", "existing", "relative", "fresh-names", "no-parent", "blocked", "full"}, "place")
	c.Opts["old"] = pick(t, []string{"x", "long", "binary", "almost", "almost", "head", "more", "later"}, "old")
	switch c.Opts["cmd"] {
	case "generate-gorm":
		drawOpt(t, c.Opts, "out", 25, "o.GO", "a.b.Go", "x.go.txt", "go")
	case "generate-plantuml":
		drawOpt(t, c.Opts, "out", 40, "o.PUML", "o.pu", "o.plantuml", "o.iuml", "x.y.Wsd", "puml", "o.puml.txt")
	case "generate-sqlalchemy":
		drawOpt(t, c.Opts, "out", 25, "o.PY", "a.b.Py", "x.py.txt", "py")
	}
	drawOpt(t, c.Opts, "room", 50, "1", "2", "3", "5")
	drawOpt(t, c.Opts, "inName", 25, "IN.JSON", "v1.2.json", "db.tar.Json", "스키마 1.json", "in.ojson", "in.xlsx.json", "-in.json", "in,2.json")
	return c
}

// mayWrite says whether a command with this output may write the file.
func (sp *cmdSpec) mayWrite(c *Case, out, file string) bool {
	switch sp.name {
	case "generate-gorm":
		return file == out && !sp.makesDir(out) || file == out+"/output.go" && sp.makesDir(out)
	case "generate-plantuml":
		return file == out && !sp.makesDir(out) || file == out+"/output.plantuml" && sp.makesDir(out)
	case "generate-graphql":
		return file == out+"/"+c.Schema.Name+"-"+c.Schema.Version+".graphqls"
	case "generate-kt":
		return strings.HasPrefix(file, out+"/") && strings.HasSuffix(file, ".kt")
	case "generate-sqlalchemy":
		if strings.HasSuffix(strings.ToLower(out), ".py") {
			return file == out
		}
		return strings.HasPrefix(file, out+"/") && strings.HasSuffix(file, ".py")
	}
	return file == out
}

func (sp *cmdSpec) makesDir(out string) bool {
	switch sp.name {
	case "generate-gorm":
		return strings.ToLower(filepath.Ext(out)) != ".go"
	case "generate-plantuml":
		return !slices.Contains([]string{".puml", ".wsd", ".pu", ".plantuml", ".iuml"}, strings.ToLower(filepath.Ext(out)))
	case "generate-sqlalchemy":
		return true
	}
	return sp.dirOut
}

func checkFiles(e *Env, c *Case) *Outcome {
	o := &Outcome{}
	sp := command(c.opt("cmd"))
	place := c.opt("place")
	o.label(sp.name, place)
	r0, clean := runCmd(e, c, nil)
	if !r0.OK() {
		o.failf("%s of a valid input failed: %s", sp.name, r0.Brief())
		return o
	}
	dir, done := e.Scratch()
	defer done()
	for _, f := range sp.inFiles(c) {
		write(filepath.Join(dir, "in", f.name), f.data)
	}
	old := map[string]string{"x": "x", "long": strings.Repeat("previous content\n", 3000), "binary": "\x00\xff\xfe{"}[c.opt("old")]
	out := "w/" + c.opt("out")
	mkdir(filepath.Join(dir, filepath.Dir(out)))
	bystanders := []string{"keep.txt", "w/keep.txt", "w/o.bak", "w/.hidden", "w/o.json.bak", "in/other.json", "output.go", "output.plantuml", "db.json"}
	for _, b := range bystanders {
		write(filepath.Join(dir, b), []byte("bystander "+b))
	}
	// the clean run wrote w/...; its files exist already
	switch place {
	case "existing":
		for k, v := range clean {
			was := old
			switch c.opt("old") { // from an earlier run, and edited since
			case "almost":
				b := []byte(v)
				if len(b) > 0 {
					b[len(b)*2/3] ^= 1
				}
				was = string(b)
			case "head":
				was = v[:len(v)*2/3]
			case "more":
				was = v + v
			}
			write(filepath.Join(dir, k), []byte(was))
			if c.opt("old") == "later" {
				then := time.Now().Add(24 * time.Hour)
				if err := os.Chtimes(filepath.Join(dir, k), then, then); err != nil {
					infra("%v", err)
				}
			}
		}
	case "no-parent":
		out = "w/missing/dir/" + filepath.Base(out)
	case "blocked":
		if sp.makesDir(out) && strings.ToLower(filepath.Ext(out)) != ".py" {
			write(filepath.Join(dir, out), []byte("a file in the way"))
		} else {
			write(filepath.Join(dir, out, "sub"), []byte("a directory in the way"))
		}
	}
	if place == "full" {
		return checkFullDisk(e, c, o, sp, dir, out, clean)
	}
	before := tree(dir)
	path := out
	if place != "relative" {
		path = filepath.Join(dir, out)
	}
	inDir := filepath.Join(dir, "in")
	if place == "relative" {
		inDir = "in"
	}
	args, env := sp.cmdLine(c, inDir, path)
	r := e.Run(dir, e.Oct, env, args...)
	after := tree(dir)
	if place == "blocked" {
		if r.OK() && len(clean) > 0 {
			o.failf("%s reports success although the output could not be written: %s", sp.name, r.Brief())
			return o
		}
	} else if place == "no-parent" {
		if !r.OK() {
			o.label("refused")
		}
	} else if !r.OK() {
		o.failf("%s failed with output %s: %s", sp.name, place, r.Brief())
		return o
	}
	if r.Crashed() {
		o.failf("%s crashed: %s", sp.name, r.Brief())
		return o
	}
	for _, k := range sortedKeys(before) {
		v, ok := after[k]
		if !ok {
			o.failf("%s removed %s", sp.name, k)
			return o
		}
		if v != before[k] && (place == "blocked" || !sp.mayWrite(c, out, k)) {
			o.failf("%s changed %s, the output is %s", sp.name, k, out)
			return o
		}
	}
	wrote := map[string]string{}
	for _, k := range sortedKeys(after) {
		if strings.HasSuffix(k, "/") {
			if _, ok := before[k]; !ok && !strings.HasPrefix(k, filepath.Dir(out)+"/") && !strings.HasPrefix(filepath.Dir(out)+"/", k) {
				o.failf("%s made the directory %s", sp.name, k)
				return o
			}
			continue
		}
		if _, ok := before[k]; !ok && !sp.mayWrite(c, out, k) {
			o.failf("%s made the file %s, the output is %s", sp.name, k, out)
			return o
		}
		if sp.mayWrite(c, out, k) {
			if _, ok := before[k]; !ok || before[k] != after[k] || clean["w/"+strings.TrimPrefix(k, filepath.Dir(out)+"/")] == after[k] || place == "existing" {
				wrote["w/"+c.opt("out")+strings.TrimPrefix(k, out)] = after[k]
			}
		}
	}
	if r.OK() && place != "no-parent" && place != "blocked" {
		if d := sameFiles(clean, wrote); d != "" {
			o.failf("%s: a run into an empty directory (first) and with output %s (second) differ: %s", sp.name, place, d)
		}
	}
	if r.OK() && place == "no-parent" && len(wrote) == 0 && len(clean) > 0 {
		o.failf("%s reports success but wrote nothing", sp.name)
	}
	return o
}

// checkFullDisk has every file of the clean run be one that opens and cannot
// be written (a link to /dev/full).
func checkFullDisk(e *Env, c *Case, o *Outcome, sp *cmdSpec, dir, out string, clean map[string]string) *Outcome {
	some := false
	keys := sortedKeys(clean)
	n, _ := strconv.Atoi(c.opt("room")) // of several files, so many can be written
	if n >= len(keys) {
		n = 0
	}
	only := len(keys)
	if c.opt("old") == "x" { // only one cannot
		only = min(n+1, len(keys))
	}
	for _, k := range keys[n:only] {
		some = some || clean[k] != ""
		p := filepath.Join(dir, k)
		mkdir(filepath.Dir(p))
		if err := os.Symlink("/dev/full", p); err != nil {
			infra("%v", err)
		}
	}
	args, env := sp.cmdLine(c, filepath.Join(dir, "in"), filepath.Join(dir, out))
	e.FullDisk = true
	r := e.Run(dir, e.Oct, env, args...)
	e.FullDisk = false
	for _, k := range keys[n:only] {
		if fi, err := os.Lstat(filepath.Join(dir, k)); err == nil && fi.Mode()&os.ModeSymlink == 0 {
			return o // replaced instead of written
		}
	}
	if some && r.OK() {
		o.failf("%s reports success although there was no room for the output: %s", sp.name, r.Brief())
	} else if r.Crashed() {
		o.failf("%s crashed when there was no room for the output: %s", sp.name, r.Brief())
	}
	return o
}

// init

func genInit(t *rapid.T) *Case {
	c := &Case{Opts: map[string]string{}}
	drawOpt(t, c.Opts, "out", 80, "db.json", "user.json", "sub/x.json", "a.b", "x")
	drawOpt(t, c.Opts, "style.output", 60, "alias", "env", "eq", "both")
	drawOpt(t, c.Opts, "existing", 40, "1")
	return c
}

func checkInit(e *Env, c *Case) *Outcome {
	o := &Outcome{}
	dir, done := e.Scratch()
	defer done()
	out := c.opt("out")
	want := out
	if out == "" {
		want = "db.json"
		o.label("default")
	}
	mkdir(filepath.Join(dir, "sub"))
	write(filepath.Join(dir, "keep.json"), []byte("keep"))
	if c.flag("existing") {
		write(filepath.Join(dir, want), []byte(strings.Repeat("old ", 1000)))
	}
	before := tree(dir)
	sp := &cmdSpec{name: "init", words: []string{"init"}}
	args, env := []string{"init"}, []string(nil)
	if out != "" {
		args, env = sp.cmdLine(&Case{Schema: &Schema{}, Opts: c.Opts}, "", out)
		// init reads nothing
		var keep []string
		for i := 0; i < len(args); i++ {
			if args[i] == "--input" {
				i++
				continue
			}
			keep = append(keep, args[i])
		}
		args = keep
	}
	r := e.Run(dir, e.Oct, env, args...)
	if !r.OK() {
		o.failf("init failed: %s", r.Brief())
		return o
	}
	after := tree(dir)
	for _, k := range sortedKeys(after) {
		if k != want && before[k] != after[k] {
			o.failf("init changed %s", k)
		}
	}
	s, err := ParseSchema([]byte(after[want]))
	if err != nil || len(s.Tables) == 0 {
		o.failf("init did not write a schema to %s: %v", want, err)
		return o
	}
	if d := diffSchemas(s.Normalize(), s); d != "" {
		o.failf("init writes a schema that is not normalized: %s", d)
	}
	for i, words := range [][]string{{"export", "mysql"}, {"export", "dbml"}, {"generate", "gorm"}, {"generate", "sqlalchemy"}} {
		r := e.RunOct(dir, append(words, "--input", want, "--output", fmt.Sprintf("z%d", i))...)
		if filepath.Ext(want) != ".json" {
			break
		}
		if !r.OK() {
			o.failf("%v refuses the schema of init: %s", words, r.Brief())
		}
	}
	return o
}

// ------------------------------------------------ C25 ways to give options

func genOptions(t *rapid.T) *Case {
	sp, c := genCmd(t, nil)
	for _, opt := range append([]optSpec{oInput, oOutput, oFrom, oTo}, sp.opts...) {
		drawOpt(t, c.Opts, "style."+opt.key, 85, "alias", "env", "eq", "both")
	}
	drawOpt(t, c.Opts, "reverseArgs", 50, "1")
	if sp.name == "generate-kt" { // accepted, without an effect so far
		drawOpt(t, c.Opts, "useUTC", 40, "1")
	}
	return c
}

func checkOptions(e *Env, c *Case) *Outcome {
	o := &Outcome{}
	sp := command(c.opt("cmd"))
	o.label(sp.name)
	plain := *c
	plain.Opts = map[string]string{}
	for k, v := range c.Opts {
		if !strings.HasPrefix(k, "style.") && k != "reverseArgs" {
			plain.Opts[k] = v
		} else {
			o.label(fmt.Sprintf("%s", strings.TrimPrefix(v, "style.")))
		}
	}
	r1, f1 := runCmd(e, &plain, nil)
	r2, f2 := runCmd(e, c, nil)
	if !r1.OK() {
		o.failf("%s of a valid input failed: %s", sp.name, r1.Brief())
		return o
	}
	if !r2.OK() {
		o.failf("%s works with long options and fails with %v: %s", sp.name, c.Opts, r2.Brief())
		return o
	}
	if d := sameFiles(f1, f2); d != "" {
		o.failf("%s: long options (first) and %v (second) differ: %s", sp.name, c.Opts, d)
	}
	return o
}

func init() {
	register(&Property{
		ID: "C20", Title: "Group filter", Quick: 6000, Rule: cmdRule, Trivial: trivialSchema,
		Scenarios: []*Scenario{{Name: "filter", Weight: 1, Gen: genFilter, Check: checkFilter}},
		Assume:    []string{"a table has the same group in both schemas of a diff", "for gorm and kt, selected tables do not refer to unselected ones"},
	})
	register(&Property{
		ID: "C21", Title: "Determinism", Quick: 4500, Rule: cmdRule, Trivial: trivialSchema,
		Scenarios: []*Scenario{{Name: "same", Weight: 1, Gen: genSame, Check: checkSame}},
	})
	register(&Property{
		ID: "C23", Title: "File discipline", Quick: 5000, Rule: cmdRule,
		Trivial:   func(c *Case, o *Outcome) bool { return c.Schema != nil && trivialSchema(c, o) },
		Scenarios: []*Scenario{{Name: "files", Weight: 20, Gen: genFiles, Check: checkFiles}, {Name: "init", Weight: 1, Gen: genInit, Check: checkInit}},
	})
	register(&Property{
		ID: "C25", Title: "Ways to give an option", Quick: 6000, Rule: cmdRule, Trivial: trivialSchema,
		Scenarios: []*Scenario{{Name: "options", Weight: 1, Gen: genOptions, Check: checkOptions}},
	})
}
