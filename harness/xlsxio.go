package main

// A minimal writer and reader of xlsx workbooks (zip + XML), independent of
// the library the code under test uses.

import (
	"archive/zip"
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"strconv"
	"strings"
)

type Sheet struct {
	Name string     `json:"name"`
	Rows [][]string `json:"rows"`
}

type Book struct {
	Sheets []*Sheet `json:"sheets"`
	Shared bool     `json:"shared,omitempty"` // shared strings instead of inline strings
	Sparse bool     `json:"sparse,omitempty"` // leave out empty cells and rows
}

func xmlEsc(s string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

func (bk *Book) Bytes() []byte {
	var out bytes.Buffer
	z := zip.NewWriter(&out)
	add := func(name, content string) {
		w, err := z.Create(name)
		if err != nil {
			infra("zip: %v", err)
		}
		io.WriteString(w, `<?xml version="1.0" encoding="UTF-8" standalone="yes"?>`+"\n"+content)
	}
	ct := `<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"><Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/><Default Extension="xml" ContentType="application/xml"/><Override PartName="/xl/workbook.xml" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.sheet.main+xml"/><Override PartName="/xl/styles.xml" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.styles+xml"/>`
	wb := `<workbook xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships"><sheets>`
	rels := `<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">`
	strIdx := map[string]int{}
	var strs []string
	var sheets []string
	for i, s := range bk.Sheets {
		n := i + 1
		ct += fmt.Sprintf(`<Override PartName="/xl/worksheets/sheet%d.xml" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml"/>`, n)
		wb += fmt.Sprintf(`<sheet name="%s" sheetId="%d" r:id="rId%d"/>`, xmlEsc(s.Name), n, n)
		rels += fmt.Sprintf(`<Relationship Id="rId%d" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/worksheet" Target="worksheets/sheet%d.xml"/>`, n, n)
		var b strings.Builder
		b.WriteString(`<worksheet xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main"><sheetData>`)
		for ri, row := range s.Rows {
			if bk.Sparse && strings.Join(row, "") == "" {
				continue
			}
			fmt.Fprintf(&b, `<row r="%d">`, ri+1)
			for ci, v := range row {
				ref := fmt.Sprintf("%c%d", 'A'+ci, ri+1)
				switch {
				case v == "" && bk.Sparse:
				case v == "":
					fmt.Fprintf(&b, `<c r="%s"/>`, ref)
				case bk.Shared:
					k, ok := strIdx[v]
					if !ok {
						k = len(strs)
						strIdx[v] = k
						strs = append(strs, v)
					}
					fmt.Fprintf(&b, `<c r="%s" t="s"><v>%d</v></c>`, ref, k)
				default:
					fmt.Fprintf(&b, `<c r="%s" t="inlineStr"><is><t xml:space="preserve">%s</t></is></c>`, ref, xmlEsc(v))
				}
			}
			b.WriteString(`</row>`)
		}
		b.WriteString(`</sheetData></worksheet>`)
		sheets = append(sheets, b.String())
	}
	n := len(bk.Sheets) + 1
	rels += fmt.Sprintf(`<Relationship Id="rId%d" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/styles" Target="styles.xml"/>`, n)
	if bk.Shared {
		rels += fmt.Sprintf(`<Relationship Id="rId%d" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/sharedStrings" Target="sharedStrings.xml"/>`, n+1)
		ct += `<Override PartName="/xl/sharedStrings.xml" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.sharedStrings+xml"/>`
	}
	add("[Content_Types].xml", ct+"</Types>")
	add("_rels/.rels", `<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" Target="xl/workbook.xml"/></Relationships>`)
	add("xl/workbook.xml", wb+"</sheets></workbook>")
	add("xl/_rels/workbook.xml.rels", rels+"</Relationships>")
	add("xl/styles.xml", `<styleSheet xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main"><fonts count="1"><font><sz val="10"/><name val="Verdana"/></font></fonts><fills count="1"><fill><patternFill patternType="none"/></fill></fills><borders count="1"><border><left/><right/><top/><bottom/></border></borders><cellStyleXfs count="1"><xf/></cellStyleXfs><cellXfs count="1"><xf/></cellXfs></styleSheet>`)
	for i, s := range sheets {
		add(fmt.Sprintf("xl/worksheets/sheet%d.xml", i+1), s)
	}
	if bk.Shared {
		var b strings.Builder
		fmt.Fprintf(&b, `<sst xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main" count="%d" uniqueCount="%d">`, len(strs), len(strs))
		for _, s := range strs {
			fmt.Fprintf(&b, `<si><t xml:space="preserve">%s</t></si>`, xmlEsc(s))
		}
		add("xl/sharedStrings.xml", b.String()+"</sst>")
	}
	if err := z.Close(); err != nil {
		infra("zip: %v", err)
	}
	return out.Bytes()
}

// readBook reads the cell texts of a workbook.
func readBook(data []byte) (*Book, error) {
	zr, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		return nil, err
	}
	parts := map[string][]byte{}
	for _, f := range zr.File {
		r, err := f.Open()
		if err != nil {
			return nil, err
		}
		b, err := io.ReadAll(r)
		r.Close()
		if err != nil {
			return nil, err
		}
		parts[strings.TrimPrefix(f.Name, "/")] = b
	}
	type text struct {
		T string `xml:"t"`
		R []struct {
			T string `xml:"t"`
		} `xml:"r"`
	}
	join := func(t text) string {
		s := t.T
		for _, r := range t.R {
			s += r.T
		}
		return s
	}
	var sst struct {
		SI []text `xml:"si"`
	}
	if b := parts["xl/sharedStrings.xml"]; b != nil {
		if err := xml.Unmarshal(b, &sst); err != nil {
			return nil, fmt.Errorf("sharedStrings: %v", err)
		}
	}
	var wb struct {
		Sheets []struct {
			Name string `xml:"name,attr"`
			RID  string `xml:"http://schemas.openxmlformats.org/officeDocument/2006/relationships id,attr"`
		} `xml:"sheets>sheet"`
	}
	if err := xml.Unmarshal(parts["xl/workbook.xml"], &wb); err != nil {
		return nil, fmt.Errorf("workbook: %v", err)
	}
	var rels struct {
		R []struct {
			ID     string `xml:"Id,attr"`
			Target string `xml:"Target,attr"`
		} `xml:"Relationship"`
	}
	if err := xml.Unmarshal(parts["xl/_rels/workbook.xml.rels"], &rels); err != nil {
		return nil, fmt.Errorf("rels: %v", err)
	}
	bk := &Book{}
	for _, s := range wb.Sheets {
		target := ""
		for _, r := range rels.R {
			if r.ID == s.RID {
				target = strings.TrimPrefix(strings.TrimPrefix(r.Target, "/"), "xl/")
			}
		}
		var ws struct {
			Rows []struct {
				R string `xml:"r,attr"`
				C []struct {
					R  string `xml:"r,attr"`
					T  string `xml:"t,attr"`
					V  string `xml:"v"`
					IS text   `xml:"is"`
				} `xml:"c"`
			} `xml:"sheetData>row"`
		}
		b := parts["xl/"+target]
		if b == nil {
			return nil, fmt.Errorf("sheet %q has no part %q", s.Name, target)
		}
		if err := xml.Unmarshal(b, &ws); err != nil {
			return nil, fmt.Errorf("sheet %q: %v", s.Name, err)
		}
		sh := &Sheet{Name: s.Name}
		for _, r := range ws.Rows {
			n := len(sh.Rows) + 1
			if r.R != "" {
				n, err = strconv.Atoi(r.R)
				if err != nil {
					return nil, err
				}
			}
			for len(sh.Rows) < n-1 {
				sh.Rows = append(sh.Rows, nil)
			}
			var row []string
			for _, c := range r.C {
				col := len(row)
				if l := strings.TrimRight(c.R, "0123456789"); l != "" {
					col = 0
					for _, x := range l {
						col = col*26 + int(x-'A') + 1
					}
					col--
				}
				for len(row) <= col {
					row = append(row, "")
				}
				switch c.T {
				case "s":
					if c.V == "" {
						break
					}
					k, err := strconv.Atoi(c.V)
					if err != nil || k >= len(sst.SI) {
						return nil, fmt.Errorf("bad shared string %q", c.V)
					}
					row[col] = join(sst.SI[k])
				case "inlineStr":
					row[col] = join(c.IS)
				default:
					row[col] = c.V
				}
			}
			sh.Rows = append(sh.Rows, row)
		}
		bk.Sheets = append(bk.Sheets, sh)
	}
	return bk, nil
}

func (b *Book) Sheet(name string) *Sheet {
	for _, s := range b.Sheets {
		if s.Name == name {
			return s
		}
	}
	return nil
}

func (s *Sheet) cell(r, c int) string {
	if r < len(s.Rows) && c < len(s.Rows[r]) {
		return s.Rows[r][c]
	}
	return ""
}
