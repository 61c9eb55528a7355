package main

// A small, strict reader of MySQL CREATE TABLE statements, used as the oracle
// for exported DDL.  It follows MySQL's lexical rules (backtick identifiers,
// '…' strings with '' and backslash escapes) and rejects what it does not know.

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

type dtok struct {
	kind byte // i identifier, q quoted identifier, s string, n number, p punctuation, e end
	v    string
}

func lexDDL(s string) ([]dtok, error) {
	var out []dtok
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '`':
			j := strings.IndexByte(s[i+1:], '`')
			if j < 0 {
				return nil, fmt.Errorf("unterminated ` at %q", clip(s[i:], 40))
			}
			out = append(out, dtok{'q', s[i+1 : i+1+j]})
			i += j + 2
		case c == '\'':
			var b strings.Builder
			i++
			closed := false
			for i < len(s) {
				if s[i] == '\\' && i+1 < len(s) {
					switch s[i+1] {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					case 'r':
						b.WriteByte('\r')
					case '0':
						b.WriteByte(0)
					case 'b':
						b.WriteByte('\b')
					case 'Z':
						b.WriteByte(26)
					case '%', '_':
						b.WriteByte('\\')
						b.WriteByte(s[i+1])
					default:
						b.WriteByte(s[i+1])
					}
					i += 2
					continue
				}
				if s[i] == '\'' {
					if i+1 < len(s) && s[i+1] == '\'' {
						b.WriteByte('\'')
						i += 2
						continue
					}
					closed = true
					i++
					break
				}
				b.WriteByte(s[i])
				i++
			}
			if !closed {
				return nil, fmt.Errorf("unterminated string")
			}
			out = append(out, dtok{'s', b.String()})
		case c >= '0' && c <= '9' || c == '.' && i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9':
			j := i
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == '.') {
				j++
			}
			out = append(out, dtok{'n', s[i:j]})
			i = j
		default:
			r, _ := utf8.DecodeRuneInString(s[i:])
			if unicode.IsLetter(r) || r == '_' || r == '$' {
				j := i
				for j < len(s) {
					r, n := utf8.DecodeRuneInString(s[j:])
					if !(unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_' || r == '$') {
						break
					}
					j += n
				}
				out = append(out, dtok{'i', s[i:j]})
				i = j
				continue
			}
			if strings.IndexByte("(),;-=", c) >= 0 {
				out = append(out, dtok{'p', string(c)})
				i++
				continue
			}
			return nil, fmt.Errorf("unexpected character %q near %q", c, clip(s[i:], 40))
		}
	}
	return append(out, dtok{'e', ""}), nil
}

type vVal struct { // a DEFAULT or ON UPDATE value
	Kind string // "" none, "str", "num", "fn", "word"
	V    string
}

type vCol struct {
	Name     string
	Type     string // lower-case SQL type name
	Size     int
	Scale    int
	Values   []string
	NotNull  bool
	AutoInc  bool
	Default  vVal
	OnUpdate vVal
	Comment  string
	HasCmt   bool
}

type vKey struct {
	Name string
	Cols []string
}

type vTable struct {
	Name        string
	IfNotExists bool
	Cols        []*vCol
	PK          [][]string
	Unique      []vKey
	Index       []vKey
}

type ddlParser struct {
	t []dtok
	i int
}

func (p *ddlParser) peek() dtok { return p.t[p.i] }
func (p *ddlParser) next() dtok {
	t := p.t[p.i]
	if p.i < len(p.t)-1 {
		p.i++
	}
	return t
}
func (p *ddlParser) word(w string) bool {
	if t := p.peek(); t.kind == 'i' && strings.EqualFold(t.v, w) {
		p.next()
		return true
	}
	return false
}
func (p *ddlParser) punct(w string) bool {
	if t := p.peek(); t.kind == 'p' && t.v == w {
		p.next()
		return true
	}
	return false
}

type ddlErr struct{ msg string }

func (p *ddlParser) fail(format string, a ...interface{}) {
	panic(ddlErr{fmt.Sprintf(format, a...) + fmt.Sprintf(" (at token %d: %q)", p.i, p.peek().v)})
}
func (p *ddlParser) must(words ...string) {
	for _, w := range words {
		if !p.word(w) {
			p.fail("expected %s", w)
		}
	}
}
func (p *ddlParser) mustP(w string) {
	if !p.punct(w) {
		p.fail("expected %q", w)
	}
}
func (p *ddlParser) ident() string {
	t := p.next()
	if t.kind != 'i' && t.kind != 'q' {
		p.fail("expected an identifier, got %q", t.v)
	}
	return t.v
}
func (p *ddlParser) num() int {
	t := p.next()
	n, err := strconv.Atoi(t.v)
	if t.kind != 'n' || err != nil {
		p.fail("expected a number, got %q", t.v)
	}
	return n
}
func (p *ddlParser) identList() []string {
	p.mustP("(")
	var r []string
	for {
		r = append(r, p.ident())
		if p.punct(")") {
			return r
		}
		p.mustP(",")
	}
}
func (p *ddlParser) value() vVal {
	t := p.next()
	switch t.kind {
	case 's':
		return vVal{"str", t.v}
	case 'n':
		return vVal{"num", t.v}
	case 'p':
		if t.v == "-" {
			if n := p.next(); n.kind == 'n' {
				return vVal{"num", "-" + n.v}
			}
		}
	case 'i':
		if p.punct("(") {
			p.mustP(")")
			return vVal{"fn", t.v}
		}
		return vVal{"word", t.v}
	}
	p.fail("bad value %q", t.v)
	return vVal{}
}

func parseDDL(src string) (tables []*vTable, err error) {
	toks, err := lexDDL(src)
	if err != nil {
		return nil, err
	}
	p := &ddlParser{t: toks}
	defer func() {
		if r := recover(); r != nil {
			d, ok := r.(ddlErr)
			if !ok {
				panic(r)
			}
			tables, err = nil, fmt.Errorf("%s", d.msg)
		}
	}()
	for p.peek().kind != 'e' {
		tables = append(tables, p.createTable())
	}
	return tables, nil
}

func (p *ddlParser) createTable() *vTable {
	t := &vTable{}
	p.must("CREATE", "TABLE")
	if p.word("IF") {
		p.must("NOT", "EXISTS")
		t.IfNotExists = true
	}
	t.Name = p.ident()
	p.mustP("(")
	for {
		p.definition(t)
		if p.punct(",") {
			continue
		}
		break
	}
	p.mustP(")")
	p.mustP(";")
	return t
}

func (p *ddlParser) definition(t *vTable) {
	if p.peek().kind == 'i' {
		nxt := p.t[min(p.i+1, len(p.t)-1)]
		switch strings.ToUpper(p.peek().v) {
		case "PRIMARY":
			if nxt.kind == 'i' && strings.EqualFold(nxt.v, "KEY") {
				p.must("PRIMARY", "KEY")
				t.PK = append(t.PK, p.identList())
				return
			}
		case "UNIQUE":
			if nxt.kind == 'i' && (strings.EqualFold(nxt.v, "KEY") || strings.EqualFold(nxt.v, "INDEX")) {
				p.next()
				p.next()
				t.Unique = append(t.Unique, vKey{p.ident(), p.identList()})
				return
			}
		case "INDEX", "KEY":
			if nxt.kind == 'q' {
				p.next()
				t.Index = append(t.Index, vKey{p.ident(), p.identList()})
				return
			}
		}
	}
	c := &vCol{Name: p.ident()}
	ty := p.next()
	if ty.kind != 'i' {
		p.fail("expected a type, got %q", ty.v)
	}
	c.Type = strings.ToLower(ty.v)
	if p.punct("(") {
		if c.Type == "enum" || c.Type == "set" {
			for {
				s := p.next()
				if s.kind != 's' {
					p.fail("expected a string value, got %q", s.v)
				}
				c.Values = append(c.Values, s.v)
				if p.punct(")") {
					break
				}
				p.mustP(",")
			}
		} else {
			c.Size = p.num()
			if p.punct(",") {
				c.Scale = p.num()
			}
			p.mustP(")")
		}
	}
	for {
		switch {
		case p.word("NOT"):
			p.must("NULL")
			c.NotNull = true
		case p.word("NULL"):
		case p.word("AUTO_INCREMENT"):
			c.AutoInc = true
		case p.word("DEFAULT"):
			c.Default = p.value()
		case p.word("ON"):
			p.must("UPDATE")
			c.OnUpdate = p.value()
		case p.word("COMMENT"):
			s := p.next()
			if s.kind != 's' {
				p.fail("expected a comment string")
			}
			c.Comment, c.HasCmt = s.v, true
		default:
			t.Cols = append(t.Cols, c)
			return
		}
	}
}
