package props

import (
	"encoding/csv"
	"fmt"
	"os"
	"strings"
	"testing"

	"github.com/pbnjay/grate"

	"verif/harness/gen"
	"verif/harness/model"
)

// kind of a type that all formats have in common
func kindOf(t string) string {
	switch t {
	case "integer", "float":
		return "number"
	}
	return t
}

func TestC07(t *testing.T) {
	prop(t, func(c *Case) {
		if c.C.Int("plain text", 0, 3) == 3 {
			plainTable(c)
			return
		}
		b := drawBook(c.C, BookOpt{MaxSheets: 3, Text: true, Formats: true, Common: true})
		for _, s := range b.Sheets {
			if s.Rows > 0 {
				s.Merges = drawMerges(c.C, s, false)
			}
		}
		xlsData, _ := storeXLS(c, b)
		xlsxData, _ := storeXLSX(c, b)
		var ws []*whole
		for i, fn := range []string{c.File("a.xls", xlsData), c.File("a.xlsx", xlsxData)} {
			src, err := grate.Open(fn)
			if err != nil {
				c.Fatalf("open %s: %v", fn, err)
			}
			w, err := readWhole(src)
			if err != nil {
				c.Fatalf("read %s: %v", fn, err)
			}
			src.Close()
			ws = append(ws, w)
			for _, s := range b.Sheets {
				g := expect(b, s, []string{"xls", "xlsx"}[i])
				for _, m := range s.Merges {
					g.merge(m, false)
				}
				if err := g.compare(w.Rows[s.Name]); err != nil {
					c.Fatalf("%s sheet %s: %v", fn, describe(s), err)
				}
			}
		}
		if fmt.Sprint(ws[0].Names) != fmt.Sprint(ws[1].Names) {
			c.Fatalf("sheets %q in XLS and %q in XLSX", ws[0].Names, ws[1].Names)
		}
		cells := 0
		for _, s := range b.Sheets {
			a, x := ws[0].Rows[s.Name], ws[1].Rows[s.Name]
			if s.Rows == 0 || s.Cols == 0 {
				continue
			}
			if len(a) != len(x) {
				c.Fatalf("sheet %s: %d rows in XLS and %d in XLSX", describe(s), len(a), len(x))
			}
			for r := range a {
				if len(a[r]) != len(x[r]) {
					c.Fatalf("sheet %s row %d: %d columns in XLS and %d in XLSX", describe(s), r, len(a[r]), len(x[r]))
				}
				for k := range a[r] {
					p, q := a[r][k], x[r][k]
					if p.S != q.S || kindOf(p.T) != kindOf(q.T) || (p.T != "blank" && p.F != q.F) {
						c.Fatalf("sheet %s %s: %v in XLS and %v in XLSX", describe(s), pos(r, k), p, q)
					}
					if p.T != "blank" {
						cells++
					}
				}
			}
		}
		c.Label("workbook")
		if cells >= 3 {
			c.NonTrivial(describe(b.Sheets[0]), b.XFs, b.Date1904)
			c.Sample("%s with formats %v, date 1904 %v, merged %v", describe(b.Sheets[0]), b.XFs, b.Date1904, b.Sheets[0].Merges)
		}
	})
}

// plainTable saves a table of text in all formats.
func plainTable(c *Case) {
	nr, nc := c.C.Int("rows", 1, 14), c.C.Int("cols", 1, 5)
	if gen.Rare(c.C, "many rows", 10) {
		nr = c.C.Int("number of rows", 15, 120)
	}
	seeded := gen.Ch(c.C)
	if nr > 14 {
		seeded = gen.NewSeeded(c.C.U64("texts"))
	}
	b := &model.Book{XFs: []int{0}}
	s := &model.Sheet{Name: "Table", Rows: nr, Cols: nc}
	b.Sheets = append(b.Sheets, s)
	var table [][]string
	for r := 0; r < nr; r++ {
		var row []string
		for k := 0; k < nc; k++ {
			t := gen.Text(seeded, "text", 1, 40)
			t = strings.Map(func(r rune) rune {
				if r == '\t' || r == '\n' || r == '\r' {
					return ' '
				}
				return r
			}, t)
			row = append(row, t)
			s.Cells = append(s.Cells, &model.Cell{R: r, C: k, K: model.Text, S: t})
		}
		table = append(table, row)
	}
	xlsData, _ := storeXLS(c, b)
	xlsxData, _ := storeXLSX(c, b)
	var tsv, csvData strings.Builder
	w := csv.NewWriter(&csvData)
	for _, row := range table {
		tsv.WriteString(strings.Join(row, "\t") + "\n")
		w.Write(row)
	}
	w.Flush()
	for _, fn := range []string{c.File("a.xls", xlsData), c.File("a.xlsx", xlsxData), c.File("a.tsv", []byte(tsv.String())), c.File("a.csv", []byte(csvData.String()))} {
		src, err := grate.Open(fn)
		if err != nil {
			c.Fatalf("open %s: %v", fn, err)
		}
		list, err := src.List()
		if err != nil || len(list) != 1 {
			c.Fatalf("%s lists %q, %v", fn, list, err)
		}
		rows, err := getStrings(src, list[0])
		src.Close()
		if err != nil {
			c.Fatalf("%s: %v", fn, err)
		}
		if fmt.Sprintf("%q", rows) != fmt.Sprintf("%q", table) {
			c.Fatalf("%s reads as\n%q instead of\n%q", fn, rows, table)
		}
		os.Remove(fn)
	}
	c.Label("text table")
	if nr*nc >= 4 {
		c.NonTrivial(table)
		c.Sample("%d rows of %d texts: %q", nr, nc, table[0])
	}
}

// getStrings reads the strings of a sheet.
func getStrings(src grate.Source, name string) ([][]string, error) {
	col, err := src.Get(name)
	if err != nil {
		return nil, err
	}
	var rows [][]string
	for col.Next() {
		rows = append(rows, col.Strings())
	}
	return rows, col.Err()
}

// drawMerges draws disjoint ranges, which may run past the extent.
func drawMerges(c gen.Ch, s *model.Sheet, past bool) []model.Range {
	var res []model.Range
	for n := c.Int("merges", 0, 4); n > 0; n-- {
		m := model.Range{R1: c.Int("merge row", 0, s.Rows-1), C1: c.Int("merge col", 0, s.Cols-1)}
		h, w := c.Int("merge height", 0, 3), c.Int("merge width", 0, 3)
		if h == 0 && w == 0 {
			w = 1
		}
		m.R2, m.C2 = m.R1+h, m.C1+w
		if past && gen.Rare(c, "far past", 10) {
			if gen.Bool(c, "all rows") {
				m.R1, m.R2 = 0, 65535
			} else {
				m.C1, m.C2 = 0, 255
			}
		}
		if !past {
			m.R2, m.C2 = min(m.R2, s.Rows-1), min(m.C2, s.Cols-1)
			if m.R1 == m.R2 && m.C1 == m.C2 {
				continue
			}
		}
		m.R2, m.C2 = min(m.R2, 65535), min(m.C2, 255)
		ok := true
		for _, o := range res {
			ok = ok && !m.Overlaps(o)
		}
		if ok {
			res = append(res, m)
		}
	}
	return res
}
