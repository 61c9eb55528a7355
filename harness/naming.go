package main

// Naming rules of the targets, written down independently.

import (
	"strings"
	"unicode"
)

// camel joins the words of a snake_case name; a letter after a digit starts a
// word, and capitals inside the name are kept.
func camel(s string, upper bool) string {
	var b strings.Builder
	if s == "ID" {
		s = "id"
	}
	up := upper
	first := true
	for _, r := range s {
		switch {
		case r >= '0' && r <= '9':
			b.WriteRune(r)
			up = true
		case r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z':
			switch {
			case up:
				r = unicode.ToUpper(r)
			case first:
				r = unicode.ToLower(r)
			}
			b.WriteRune(r)
			up = false
		default:
			up = r == '_' || r == ' ' || r == '-' || r == '.'
		}
		first = false
	}
	return b.String()
}

// nameKey is what two names share when they may end up as the same identifier.
func nameKey(s string) string {
	var b strings.Builder
	for _, r := range strings.ToLower(s) {
		if r >= '0' && r <= '9' || r >= 'a' && r <= 'z' {
			b.WriteRune(r)
		}
	}
	return b.String()
}

var gormInitialisms = func() *strings.Replacer {
	var r []string
	for _, x := range []string{"API", "ASCII", "CPU", "CSS", "DNS", "EOF", "GUID", "HTML", "HTTP", "HTTPS", "ID", "IP", "JSON", "LHS", "QPS", "RAM", "RHS", "RPC", "SLA", "SMTP", "SSH", "TLS", "TTL", "UID", "UI", "UUID", "URI", "URL", "UTF8", "VM", "XML", "XSRF", "XSS"} {
		r = append(r, x, x[:1]+strings.ToLower(x[1:]))
	}
	return strings.NewReplacer(r...)
}()

// gormColumn is the column name GORM derives from a struct field name.
func gormColumn(field string) string {
	if field == "" {
		return ""
	}
	v := gormInitialisms.Replace(field)
	isUp := func(i int) bool { return v[i] >= 'A' && v[i] <= 'Z' }
	var b strings.Builder
	last, curr := false, false
	for i := 0; i < len(v)-1; i++ {
		next := isUp(i + 1)
		num := v[i+1] >= '0' && v[i+1] <= '9'
		if i == 0 {
			curr = true
			b.WriteByte(v[i])
		} else if curr {
			if !(last && (next || num)) && v[i-1] != '_' && v[i+1] != '_' {
				b.WriteByte('_')
			}
			b.WriteByte(v[i])
		} else {
			b.WriteByte(v[i])
			if i == len(v)-2 && next && !num {
				b.WriteByte('_')
			}
		}
		last, curr = curr, next
	}
	b.WriteByte(v[len(v)-1])
	return strings.ToLower(b.String())
}
