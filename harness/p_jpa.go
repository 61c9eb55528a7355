package main

// C13: JPA entities in Kotlin.

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"
	"unicode"

	"pgregory.net/rapid"
)

func jpaSchemaOpt() SchemaOpt {
	o := mysqlSchemaOpt()
	o.TableName = NameOpt{Upper: true, Awkward: true, Under: true}
	o.ColName = NameOpt{Upper: true, Awkward: true, Under: true}
	o.TableKey, o.ColKey = nameKey, nameKey
	o.MaxTables = 5
	o.OddSizes = true
	o.TableText, o.ColText = TextNone, TextNone
	return o
}

var auditPool = []string{"id", "created_at", "updated_at", "deleted_at", "name", "note", "user_id", "x", "is_active", "createdAt", "line_1", "2fa", "val"}

func genJPA(t *rapid.T) *Case {
	so := jpaSchemaOpt()
	if chance(t, 40, "audit") {
		so.ColName = NameOpt{Pool: auditPool}
		so.Types = append([]string{"datetime", "datetime", "datetime", "datetime", "datetime", "datetime", "int64", "int64"}, canonicalTypes...)
		so.MinCols, so.MaxCols = 2, 9
	}
	s := genSchema(t, so)
	c := &Case{Schema: s, Opts: map[string]string{}}
	drawOpt(t, c.Opts, "package", 70, "model", "com.acme.entity", "a.b")
	if c.flag("package") {
		drawOpt(t, c.Opts, "reposPackage", 50, "com.acme.repos", "a.b", "r")
	}
	drawOpt(t, c.Opts, "suffix", 40, "_uq", "_UNIQUE")
	drawOpt(t, c.Opts, "idEntity", 40, "IdEntity", "com.acme.base.HasId")
	drawOpt(t, c.Opts, "relation", 40, "VRelation")
	drawOpt(t, c.Opts, "annotation", 40, "a:@X", "a:@X,b:@Y", "a:@X;@Y", "a:@Cache(usage = 1, region = 2);@Y,b:@Z", "@Every", ":@NoGroup", "a:@Lo,A:@Up", "ab:@Ab,b:@Bb")
	drawPrefixes(t, c)
	drawGroups(t, c.Opts, s, 20)
	// a class that hides one of the names the generated code itself uses is outside
	for i, tb := range s.Tables {
		n := className(tb, c.opt("prefix"), c.opt("removePrefix"), upperCamel)
		if ktImports[n] != "" || ktBuiltin[n] {
			tb.ClassName = "Shadow" + alpha(i)
		}
	}
	fixClassNames(c, upperCamel)
	return c
}

var ktBuiltin = strSet("String", "Boolean", "Int", "Long", "Float", "Double", "Any", "VRelation", "System")

// ---- a reader of the Kotlin declarations the generator may write

type ktAnno struct {
	name string
	args map[string]string
}

func (a ktAnno) String() string {
	if a.args == nil {
		return "@" + a.name
	}
	var ks []string
	for k, v := range a.args {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	return "@" + a.name + "(" + strings.Join(ks, ", ") + ")"
}

type ktParam struct {
	annos    []ktAnno
	override bool
	kind     string
	name     string
	typ      string
	def      string
}

type ktDecl struct {
	annos  []ktAnno
	kind   string // "data class", "class", "interface"
	name   string
	params []ktParam
	supers []string
}

type ktFile struct {
	pkg     string
	imports []string
	decls   []ktDecl
}

type ktTok struct {
	s    string
	kind byte // i identifier, q quoted identifier, s string, n number, p punctuation
}

func ktLex(text string) ([]ktTok, error) {
	var toks []ktTok
	rs := []rune(text)
	for i := 0; i < len(rs); {
		r := rs[i]
		switch {
		case unicode.IsSpace(r):
			i++
		case r == '/' && i+1 < len(rs) && rs[i+1] == '/':
			for i < len(rs) && rs[i] != '\n' {
				i++
			}
		case unicode.IsLetter(r) || r == '_':
			j := i
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_') {
				j++
			}
			toks = append(toks, ktTok{string(rs[i:j]), 'i'})
			i = j
		case unicode.IsDigit(r):
			j := i
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '.' && j+1 < len(rs) && unicode.IsDigit(rs[j+1])) {
				j++
			}
			toks = append(toks, ktTok{string(rs[i:j]), 'n'})
			i = j
		case r == '"':
			j := i + 1
			for j < len(rs) && rs[j] != '"' && rs[j] != '\n' {
				if rs[j] == '\\' {
					j++
				}
				if j < len(rs) && rs[j] == '$' {
					return nil, fmt.Errorf("a string template")
				}
				j++
			}
			if j >= len(rs) || rs[j] != '"' {
				return nil, fmt.Errorf("unterminated string")
			}
			toks = append(toks, ktTok{string(rs[i : j+1]), 's'})
			i = j + 1
		case r == '`':
			j := i + 1
			for j < len(rs) && rs[j] != '`' && rs[j] != '\n' {
				j++
			}
			if j >= len(rs) || rs[j] != '`' || j == i+1 {
				return nil, fmt.Errorf("bad quoted identifier")
			}
			toks = append(toks, ktTok{string(rs[i+1 : j]), 'q'})
			i = j + 1
		case r == ':' && i+1 < len(rs) && rs[i+1] == ':':
			toks = append(toks, ktTok{"::", 'p'})
			i += 2
		case strings.ContainsRune("@()[]<>,:=.?", r):
			toks = append(toks, ktTok{string(r), 'p'})
			i++
		default:
			return nil, fmt.Errorf("unexpected character %q", r)
		}
	}
	return toks, nil
}

var ktHard = strSet("as", "break", "class", "continue", "do", "else", "false", "for", "fun", "if", "in", "interface", "is", "null", "object", "package", "return", "super", "this", "throw", "true", "try", "typealias", "typeof", "val", "var", "when", "while")

type ktParser struct {
	toks []ktTok
	i    int
}

type ktErr struct{ s string }

func (p *ktParser) fail(f string, a ...interface{}) { panic(ktErr{fmt.Sprintf(f, a...)}) }
func (p *ktParser) peek() ktTok {
	if p.i < len(p.toks) {
		return p.toks[p.i]
	}
	return ktTok{}
}
func (p *ktParser) is(s string) bool {
	t := p.peek()
	return t.s == s && (t.kind == 'p' || t.kind == 'i')
}
func (p *ktParser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *ktParser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q, found %q", s, p.peek().s)
	}
}
func (p *ktParser) ident() string {
	t := p.peek()
	if t.kind == 'q' || t.kind == 'i' && !ktHard[t.s] {
		p.i++
		return t.s
	}
	p.fail("expected an identifier, found %q", t.s)
	return ""
}
func (p *ktParser) qname() string {
	n := p.ident()
	for p.accept(".") {
		n += "." + p.ident()
	}
	return n
}

// expr reads a balanced expression up to a comma or closing bracket.
func (p *ktParser) expr() string {
	var b strings.Builder
	depth := 0
	var prev ktTok
	for {
		t := p.peek()
		if t.kind == 0 {
			p.fail("unexpected end of file in an expression")
		}
		if t.kind == 'p' {
			switch t.s {
			case "(", "[":
				depth++
			case ")", "]":
				if depth == 0 {
					return p.done(b.String())
				}
				depth--
			case ",":
				if depth == 0 {
					return p.done(b.String())
				}
			}
		}
		if (prev.kind == 'i' || prev.kind == 'n' || prev.kind == 's') && (t.kind == 'i' || t.kind == 'n' || t.kind == 's' || t.kind == 'q') || prev.s == "," && t.s == "," || prev.s == "(" && t.s == "," {
			p.fail("%q cannot follow %q", t.s, prev.s)
		}
		b.WriteString(t.s)
		prev = t
		p.i++
	}
}
func (p *ktParser) done(s string) string {
	if s == "" {
		p.fail("an expression is missing before %q", p.peek().s)
	}
	return s
}

func (p *ktParser) typ() string {
	s := p.qname()
	if p.accept("<") {
		s += "<" + p.typ()
		for p.accept(",") {
			s += "," + p.typ()
		}
		p.expect(">")
		s += ">"
	}
	if p.accept("?") {
		s += "?"
	}
	return s
}

func (p *ktParser) annos() (r []ktAnno) {
	for p.accept("@") {
		a := ktAnno{name: p.qname()}
		if p.accept("(") {
			a.args = map[string]string{}
			for n := 0; !p.is(")"); n++ {
				key := fmt.Sprint(n)
				if p.i+1 < len(p.toks) && p.toks[p.i].kind == 'i' && p.toks[p.i+1].s == "=" {
					key = p.ident()
					p.i++
				}
				if _, ok := a.args[key]; ok {
					p.fail("@%s has %s twice", a.name, key)
				}
				a.args[key] = p.expr()
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
		}
		r = append(r, a)
	}
	return r
}

func readKotlin(text string) (f *ktFile, err error) {
	defer func() {
		if r := recover(); r != nil {
			k, ok := r.(ktErr)
			if !ok {
				panic(r)
			}
			err = fmt.Errorf("not valid Kotlin: %s", k.s)
		}
	}()
	f = &ktFile{}
	lines := strings.Split(text, "\n")
	i := 0
	for ; i < len(lines); i++ {
		l := strings.TrimSpace(lines[i])
		switch {
		case l == "":
		case strings.HasPrefix(l, "package"):
			if f.pkg != "" || len(f.imports) > 0 {
				return nil, fmt.Errorf("the package line is not the first")
			}
			f.pkg = strings.TrimSpace(l[7:])
			if f.pkg == "" || strings.ContainsAny(f.pkg, " \t;") {
				return nil, fmt.Errorf("bad package line %q", l)
			}
		case strings.HasPrefix(l, "import "):
			imp := strings.TrimSpace(l[7:])
			for k, part := range strings.Split(imp, ".") {
				if part == "" || part == "*" && k == 0 || strings.ContainsAny(part, " \t;") {
					return nil, fmt.Errorf("bad import %q", l)
				}
			}
			f.imports = append(f.imports, imp)
		default:
			goto body
		}
	}
body:
	toks, err := ktLex(strings.Join(lines[i:], "\n"))
	if err != nil {
		return nil, fmt.Errorf("not valid Kotlin: %v", err)
	}
	p := &ktParser{toks: toks}
	for p.i < len(p.toks) {
		d := ktDecl{annos: p.annos()}
		switch {
		case p.accept("data"):
			p.expect("class")
			d.kind = "data class"
		case p.accept("class"):
			d.kind = "class"
		case p.accept("interface"):
			d.kind = "interface"
		default:
			p.fail("expected a declaration, found %q", p.peek().s)
		}
		d.name = p.ident()
		if p.accept("(") {
			for !p.is(")") {
				x := ktParam{annos: p.annos()}
				x.override = p.accept("override")
				switch {
				case p.accept("var"):
					x.kind = "var"
				case p.accept("val"):
					x.kind = "val"
				default:
					p.fail("a parameter of a data class needs var or val, found %q", p.peek().s)
				}
				x.name = p.ident()
				p.expect(":")
				x.typ = p.typ()
				if p.accept("=") {
					x.def = p.expr()
				}
				d.params = append(d.params, x)
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
		}
		if p.accept(":") {
			d.supers = append(d.supers, p.typ())
			for p.accept(",") {
				d.supers = append(d.supers, p.typ())
			}
		}
		f.decls = append(f.decls, d)
	}
	return f, nil
}

// ---- the model

var ktImports = map[string]string{
	"BigDecimal": "java.math.BigDecimal", "Timestamp": "java.sql.Timestamp", "Blob": "java.sql.Blob",
	"LocalDate": "java.time.LocalDate", "LocalTime": "java.time.LocalTime", "Serializable": "java.io.Serializable",
	"CreationTimestamp": "org.hibernate.annotations.CreationTimestamp", "UpdateTimestamp": "org.hibernate.annotations.UpdateTimestamp",
	"Entity": "javax.persistence.Entity", "Table": "javax.persistence.Table", "UniqueConstraint": "javax.persistence.UniqueConstraint",
	"Id": "javax.persistence.Id", "IdClass": "javax.persistence.IdClass", "GeneratedValue": "javax.persistence.GeneratedValue",
	"GenerationType": "javax.persistence.GenerationType", "Column": "javax.persistence.Column", "Lob": "javax.persistence.Lob",
	"JpaRepository": "org.springframework.data.jpa.repository.JpaRepository", "Repository": "org.springframework.stereotype.Repository",
}

func (f *ktFile) imported(name string) bool {
	full := ktImports[name]
	pkg := full[:strings.LastIndex(full, ".")]
	for _, i := range f.imports {
		if i == full || i == pkg+".*" {
			return true
		}
	}
	return false
}

func ktType(c *Col) (typ, def string) {
	switch c.Type {
	case "char", "varchar", "text8", "text16", "text24", "text32":
		return "String", `""`
	case "boolean":
		return "Boolean", "false"
	case "int8", "int16", "int24", "int32":
		return "Int", "0"
	case "int64":
		return "Long", "0L"
	case "decimal":
		return "BigDecimal", "BigDecimal.ZERO"
	case "float":
		return "Float", "0.0F"
	case "double":
		return "Double", "0.0"
	case "datetime":
		return "Timestamp", "Timestamp(System.currentTimeMillis())"
	case "date":
		return "LocalDate", "LocalDate.now()"
	case "time":
		return "LocalTime", "LocalTime.now()"
	case "blob8", "blob16", "blob24", "blob32":
		return "Blob", ""
	}
	return "Any", ""
}

// springColumn is the column Hibernate derives from a property name.
func springColumn(p string) string {
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		up := p[i] >= 'A' && p[i] <= 'Z'
		if up && i > 0 && i < len(p)-1 && p[i-1] >= 'a' && p[i-1] <= 'z' && p[i+1] >= 'a' && p[i+1] <= 'z' {
			b.WriteByte('_')
		}
		b.WriteByte(p[i])
	}
	return strings.ToLower(b.String())
}

func checkJPA(e *Env, c *Case) *Outcome {
	o := &Outcome{}
	schemaLabels(o, c.Schema)
	dir, done := e.Scratch()
	defer done()
	in, out := filepath.Join(dir, "in.json"), filepath.Join(dir, "out")
	write(in, c.Schema.JSON())
	args := append([]string{"generate", "kt", "--input", in, "--output", out}, groupArgs(c)...)
	for _, kv := range [][2]string{{"package", "--package"}, {"suffix", "--uniqueNameSuffix"}, {"prefix", "--prefix"}, {"removePrefix", "--removePrefix"}, {"idEntity", "--idEntity"}, {"relation", "--relation"}, {"annotation", "--annotation"}, {"reposPackage", "--reposPackage"}} {
		if v := c.opt(kv[0]); v != "" {
			args = append(args, kv[1], v)
			o.label("opt-" + kv[0])
		}
	}
	r := e.RunOct(dir, args...)
	sel := c.Schema.Normalize()
	if g := splitGroups(c.opt("groups")); g != nil {
		sel = sel.Filter(g)
	}
	outside := false // a reference to a table that is not generated
	for _, tb := range sel.Tables {
		for _, x := range tb.Columns {
			if x.Ref != nil && sel.Table(x.Ref.Table) == nil {
				outside = true
			}
		}
	}
	if !r.OK() {
		if outside && c.flag("relation") && !r.Crashed() {
			o.label("refused")
			return o
		}
		o.failf("generation from a valid schema failed: %s", r.Brief())
		return o
	}
	if err := checkJPAFiles(o, c, sel, dir); err != nil {
		o.failf("%v", err)
	}
	return o
}

func checkJPAFiles(o *Outcome, c *Case, sel *Schema, dir string) error {
	got := tree(dir)
	delete(got, "in.json")
	for k := range got {
		if strings.HasSuffix(k, "/") {
			delete(got, k)
		}
	}
	pkgDir := func(p string) string { return "out/" + strings.ReplaceAll(p, ".", "/") }
	cls := map[string]string{}
	for _, tb := range sel.Tables {
		cls[tb.Name] = className(tb, c.opt("prefix"), c.opt("removePrefix"), upperCamel)
	}
	for _, tb := range sel.Tables {
		name := filepath.Clean(pkgDir(c.opt("package")) + "/" + cls[tb.Name] + ".kt")
		text, ok := got[name]
		if !ok {
			return fmt.Errorf("there is no file %s for table %s; files: %v", name, tb.Name, keysOf(got))
		}
		delete(got, name)
		if err := checkJPAClass(o, c, cls, tb, text); err != nil {
			return fmt.Errorf("%s: %v\n%s", name, err, clip(text, 2500))
		}
		if c.flag("reposPackage") && len(tb.PKs()) > 0 {
			name := filepath.Clean(pkgDir(c.opt("reposPackage")) + "/" + cls[tb.Name] + "Repository.kt")
			text, ok := got[name]
			if !ok {
				return fmt.Errorf("there is no file %s for table %s", name, tb.Name)
			}
			delete(got, name)
			if err := checkJPARepo(o, c, cls[tb.Name], tb, text); err != nil {
				return fmt.Errorf("%s: %v\n%s", name, err, clip(text, 1500))
			}
		}
	}
	if len(got) > 0 {
		return fmt.Errorf("unexpected files %v", keysOf(got))
	}
	return nil
}

func keysOf(m map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func checkAnnos(where string, f *ktFile, got []ktAnno, want []string, optional ...string) error {
	opt := strSet(optional...)
	w := map[string]int{}
	for _, x := range want {
		w[x]++
	}
	for _, a := range got {
		s := a.String()
		if w[s] > 0 {
			w[s]--
		} else if !opt[s] {
			return fmt.Errorf("%s has %s, expected %v", where, s, want)
		}
		if _, known := ktImports[a.name]; known && !f.imported(a.name) {
			return fmt.Errorf("@%s is used but not imported", a.name)
		}
	}
	for s, n := range w {
		if n > 0 {
			return fmt.Errorf("%s lacks %s, it has %v", where, s, got)
		}
	}
	return nil
}

func (f *ktFile) typeOK(t string) error {
	for _, n := range strings.FieldsFunc(t, func(r rune) bool { return !(unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_' || r == '.') }) {
		if i := strings.Index(n, "."); i > 0 && ktImports[n[:i]] != "" {
			n = n[:i]
		}
		if ktImports[n] != "" && !f.imported(n) {
			return fmt.Errorf("%s is used but not imported", n)
		}
	}
	return nil
}

func fullType(c *Col) (typ, def string) {
	typ, def = ktType(c)
	if !c.NotNull {
		return typ + "?", ""
	}
	return typ, def
}

func checkJPAClass(o *Outcome, c *Case, cls map[string]string, tb *Table, text string) error {
	f, err := readKotlin(text)
	if err != nil {
		return err
	}
	if f.pkg != c.opt("package") {
		return fmt.Errorf("package %q, expected %q", f.pkg, c.opt("package"))
	}
	for _, imp := range f.imports {
		known := imp == "javax.persistence.*"
		for _, k := range ktImports {
			known = known || k == imp
		}
		if !known {
			return fmt.Errorf("unknown import %s", imp)
		}
	}
	pks := tb.PKs()
	nd := 1
	if len(pks) > 1 {
		nd = 2
	}
	if len(f.decls) != nd {
		return fmt.Errorf("%d declarations, expected %d", len(f.decls), nd)
	}
	d := f.decls[0]
	name := cls[tb.Name]
	if d.kind != "data class" || d.name != name {
		return fmt.Errorf("%s %s, expected data class %s", d.kind, d.name, name)
	}

	propName := func(x *Col) string { return camel(x.Name, false) }
	colNames := map[string]string{} // column → name in @Column, or the property
	for i, x := range tb.Columns {
		if i >= len(d.params) {
			return fmt.Errorf("no property for column %s", x.Name)
		}
		colNames[x.Name] = propName(x)
		for _, a := range d.params[i].annos {
			if a.name == "Column" && a.args["name"] != "" {
				colNames[x.Name] = strings.Trim(a.args["name"], `"`)
			}
		}
	}
	if len(d.params) != len(tb.Columns) {
		return fmt.Errorf("%d properties for %d columns", len(d.params), len(tb.Columns))
	}

	// class annotations
	want := []string{"@Entity"}
	switch a := c.opt("annotation"); {
	case a == "@Every":
		want = append(want, a)
	case a != "":
		m := map[string][]string{"a:@X": {"a", "@X"}, "a:@X,b:@Y": {"a", "@X", "b", "@Y"}, "a:@X;@Y": {"a", "@X", "a", "@Y"},
			"a:@Cache(usage = 1, region = 2);@Y,b:@Z": {"a", "@Cache(region=2, usage=1)", "a", "@Y", "b", "@Z"}, ":@NoGroup": {"", "@NoGroup"}, "a:@Lo,A:@Up": {"a", "@Lo", "A", "@Up"}, "ab:@Ab,b:@Bb": {"ab", "@Ab", "b", "@Bb"}}[a]
		if m == nil {
			infra("annotation option %q", a)
		}
		for i := 0; i < len(m); i += 2 {
			if m[i] == tb.Group {
				want = append(want, m[i+1])
				o.label("group-annotation")
			}
		}
	}
	if len(pks) > 1 {
		want = append(want, "@IdClass(0="+name+"PK::class)")
	}
	var table *ktAnno
	var rest []ktAnno
	for i := range d.annos {
		if d.annos[i].name == "Table" {
			if table != nil {
				return fmt.Errorf("two @Table annotations")
			}
			table = &d.annos[i]
		} else {
			rest = append(rest, d.annos[i])
		}
	}
	if table == nil || table.args["name"] != `"`+tb.Name+`"` {
		return fmt.Errorf("@Table does not name table %q", tb.Name)
	}
	if err := checkAnnos("class "+name, f, rest, want); err != nil {
		return err
	}
	if !f.imported("Table") {
		return fmt.Errorf("@Table is not imported")
	}
	uc := ""
	if us := tb.Uniques(); len(us) > 0 {
		var cols []string
		for _, x := range us {
			cols = append(cols, `"`+colNames[x.Name]+`"`)
		}
		uc = "[UniqueConstraint(name=\"" + tb.Name + c.opt("suffix") + "\",columnNames=[" + strings.Join(cols, ",") + "])]"
		alt := uc
		for _, x := range us { // the column itself is as good as the name of its property
			alt = strings.Replace(alt, `"`+colNames[x.Name]+`"`, `"`+x.Name+`"`, 1)
		}
		if table.args["uniqueConstraints"] == alt {
			uc = alt
		}
	}
	if table.args["uniqueConstraints"] != uc {
		return fmt.Errorf("unique constraints %q, expected %q", table.args["uniqueConstraints"], uc)
	}
	n := 1
	if uc != "" {
		n = 2
	}
	if len(table.args) != n {
		return fmt.Errorf("unexpected arguments in %v", *table)
	}

	// super type
	idEntity := c.flag("idEntity") && len(pks) == 1 && propName(pks[0]) == "id"
	wantSuper := ""
	if idEntity {
		typ, _ := fullType(pks[0])
		wantSuper = c.opt("idEntity") + "<" + typ + ">"
		o.label("id-entity")
	}
	if s := strings.Join(d.supers, ", "); s != wantSuper {
		return fmt.Errorf("super type %q, expected %q", s, wantSuper)
	}

	// properties
	for i, x := range tb.Columns {
		p := d.params[i]
		typ, def := fullType(x)
		if p.name != propName(x) || p.typ != typ || p.def != def || p.kind != "var" || p.override != (idEntity && x.PK) {
			return fmt.Errorf("column %s (%s notnull=%v pk=%v): property %+v, expected %s: %s = %s (override=%v)", x.Name, x.Type, x.NotNull, x.PK, p, propName(x), typ, def, idEntity && x.PK)
		}
		if err := f.typeOK(typ + " " + def); err != nil {
			return err
		}
		var want, optional []string
		if x.PK {
			want = append(want, "@Id")
		}
		if x.AutoInc {
			want = append(want, "@GeneratedValue(strategy=GenerationType.AUTO)")
		}
		if isTextType(x.Type) {
			want = append(want, "@Lob")
		}
		col := ktAnno{name: "Column", args: map[string]string{}}
		if colNames[x.Name] != propName(x) || springColumn(propName(x)) != x.Name {
			col.args["name"] = `"` + x.Name + `"`
			o.label("explicit-column")
		}
		for _, a := range p.annos { // an explicit name is never wrong when it is right
			if a.name == "Column" && a.args["name"] == `"`+x.Name+`"` {
				col.args["name"] = a.args["name"]
			}
		}
		if x.NotNull {
			col.args["nullable"] = "false"
		}
		switch x.Type {
		case "char", "varchar", "text8", "text16", "text24", "text32":
			if x.Size > 0 {
				col.args["length"] = fmt.Sprint(x.Size)
			}
		case "float", "double", "decimal":
			if x.Size > 0 {
				col.args["precision"] = fmt.Sprint(x.Size)
			}
			if x.Scale > 0 {
				col.args["scale"] = fmt.Sprint(x.Scale)
			}
		case "datetime":
			switch propName(x) {
			case "createdAt":
				want = append(want, "@CreationTimestamp")
				col.args["updatable"] = "false"
				o.label("audit")
			case "updatedAt":
				want = append(want, "@UpdateTimestamp")
				o.label("audit")
			}
		}
		if len(col.args) > 0 {
			want = append(want, col.String())
		}
		if c.flag("relation") && x.Ref != nil {
			if t := cls[x.Ref.Table]; t != "" {
				want = append(want, fmt.Sprintf(`@VRelation(cls="%s", field="%s")`, t, camel(x.Ref.Column, false)))
				o.label("vrelation")
			}
		}
		if err := checkAnnos("column "+x.Name, f, p.annos, want, optional...); err != nil {
			return err
		}
	}

	// id class
	if len(pks) > 1 {
		o.label("id-class")
		k := f.decls[1]
		if k.kind != "data class" || k.name != name+"PK" || strings.Join(k.supers, ",") != "Serializable" || len(k.annos) > 0 {
			return fmt.Errorf("id class %s %s : %v", k.kind, k.name, k.supers)
		}
		if !f.imported("Serializable") {
			return fmt.Errorf("Serializable is not imported")
		}
		if len(k.params) != len(pks) {
			return fmt.Errorf("the id class has %d properties for %d key columns", len(k.params), len(pks))
		}
		for i, x := range pks {
			typ, def := fullType(x)
			p := k.params[i]
			if p.name != propName(x) || p.typ != typ || p.def != def || p.kind != "var" || len(p.annos) > 0 || p.override {
				return fmt.Errorf("id class property %+v for column %s, expected %s: %s = %s", p, x.Name, propName(x), typ, def)
			}
		}
	}
	return nil
}

func checkJPARepo(o *Outcome, c *Case, cls string, tb *Table, text string) error {
	f, err := readKotlin(text)
	if err != nil {
		return err
	}
	o.label("repository")
	if f.pkg != c.opt("reposPackage") {
		return fmt.Errorf("package %q, expected %q", f.pkg, c.opt("reposPackage"))
	}
	ok := f.pkg == c.opt("package")
	for _, i := range f.imports {
		ok = ok || i == c.opt("package")+".*" || i == c.opt("package")+"."+cls
	}
	if !ok {
		return fmt.Errorf("the entity is not imported: %v", f.imports)
	}
	if len(f.decls) != 1 {
		return fmt.Errorf("%d declarations", len(f.decls))
	}
	d := f.decls[0]
	id := cls + "PK"
	if pks := tb.PKs(); len(pks) == 1 {
		id, _ = fullType(pks[0])
	}
	if d.kind != "interface" || d.name != cls+"Repository" || len(d.params) > 0 {
		return fmt.Errorf("declaration %+v", d)
	}
	if s := strings.Join(d.supers, ","); s != "JpaRepository<"+cls+","+id+">" && s != "JpaRepository<"+cls+","+strings.TrimSuffix(id, "?")+">" {
		return fmt.Errorf("super type %s, expected JpaRepository<%s,%s>", s, cls, id)
	}
	if !f.imported("JpaRepository") || !f.imported("Repository") {
		return fmt.Errorf("imports are missing: %v", f.imports)
	}
	// the type of the id may need an import of its own
	if len(tb.PKs()) == 1 {
		if err := f.typeOK(id); err != nil {
			return err
		}
	}
	return checkAnnos("repository", f, d.annos, []string{"@Repository"})
}

func init() {
	register(&Property{
		ID: "C13", Title: "JPA Kotlin source", Quick: 6000, Rule: schemaRule, Trivial: trivialSchema,
		Scenarios: []*Scenario{{Name: "kotlin", Weight: 1, Gen: genJPA, Check: checkJPA}},
		Assume:    []string{"properties are mapped to columns by Spring's naming strategy (camelCase to snake_case) when no column name is stated", "table and column names differ by more than case and underscores, class names are distinct and differ from the names the generated code uses"},
	})
}
